"""Runtime half of the contracts: executable pre/postconditions evaluated on the real code.

A contract is a function f(g): it draws arguments satisfying the precondition from the case
generator g, calls the real function(s) of /repo and states the postcondition through g.check /
g.close.  A case is determined by (property, contract, index, VERIF_SEED) and can be replayed.
"""
import os
import sys
import json
import time
import signal
import hashlib
import traceback
import warnings
import contextlib
import io as _io

import numpy as np

REGISTRY = {}


class Fail(Exception):
    pass


class Skip(Exception):
    """the drawn case does not satisfy the precondition"""


class CaseTimeout(Exception):
    pass


def contract(prop, cases=60, thorough=None, fns=(), budget=25.0, limit=150):
    def deco(f):
        REGISTRY.setdefault(prop, {})[f.__name__] = dict(
            f=f, cases=cases, thorough=thorough or cases * 12, fns=list(fns), budget=budget, limit=limit)
        return f
    return deco


def brief(x, n=12):
    if isinstance(x, np.ndarray):
        s = np.array2string(x.ravel()[:n], precision=6, threshold=n)
        return f'ndarray{x.shape}:{x.dtype}{s}'
    if isinstance(x, (list, tuple)) and len(x) > n:
        return f'{type(x).__name__}[{len(x)}]{[brief(v) for v in x[:4]]}'
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


class Gen:
    def __init__(self, seed, index):
        self.rng = np.random.default_rng(seed)
        self.index = index
        self.log = []
        self.evals = 0

    # ---- drawing
    def note(self, **kw):
        for k, v in kw.items():
            self.log.append(f'{k} = {brief(v)}')

    def int(self, lo, hi):
        """integer in [lo, hi]"""
        return int(self.rng.integers(lo, hi + 1))

    def real(self, lo=-1.0, hi=1.0):
        return float(self.rng.uniform(lo, hi))

    def choice(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def bool(self, p=0.5):
        return bool(self.rng.random() < p)

    def normal(self, *shape):
        return self.rng.standard_normal(shape)

    def cnormal(self, *shape):
        return self.rng.standard_normal(shape) + 1j * self.rng.standard_normal(shape)

    def unit(self, *shape):
        v = self.rng.standard_normal(tuple(shape) + (3,))
        return v / np.linalg.norm(v, axis=-1, keepdims=True)

    def dirs(self, n):
        """n directions (azi, zen), sometimes at poles / axes"""
        azi = self.rng.uniform(-np.pi, np.pi, n)
        zen = np.arccos(self.rng.uniform(-1, 1, n))
        for i in range(n):
            if self.rng.random() < 0.12:
                zen[i] = [0, np.pi, np.pi / 2][self.int(0, 2)]
            elif self.rng.random() < 0.08:
                e = 10 ** self.rng.uniform(-6, -1)      # close to, but not at, a pole
                zen[i] = e if self.bool() else np.pi - e
            if self.rng.random() < 0.12:
                azi[i] = [0, np.pi / 2, np.pi, -np.pi / 2, 3.0][self.int(0, 4)]
            elif self.rng.random() < 0.06:
                azi[i] = azi[i] + 2 * np.pi if azi[i] < 0 else azi[i]
        return azi, zen

    def rotation(self):
        q, r = np.linalg.qr(self.rng.standard_normal((3, 3)))
        q = q * np.sign(np.diag(r))
        if np.linalg.det(q) < 0:
            q[:, 0] = -q[:, 0]
        return q

    # ---- postconditions
    def check(self, cond, msg):
        self.evals += 1
        if not bool(np.all(cond)):
            raise Fail(msg)

    def close(self, a, b, msg, tol=1e-9, scale=None):
        self.evals += 1
        a = np.asarray(a)
        b = np.asarray(b)
        a = a.astype(int) if a.dtype == bool else a
        b = b.astype(int) if b.dtype == bool else b
        if a.shape != b.shape:
            try:
                np.broadcast_shapes(a.shape, b.shape)
            except ValueError:
                raise Fail(f'{msg}: shapes {a.shape} and {b.shape} differ')
        if a.size == 0 and b.size == 0:
            return
        s = scale if scale is not None else max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
        with np.errstate(all='ignore'):
            d = np.abs(a - b)
        bad = ~(d <= tol * s)
        if np.any(bad):
            raise Fail(f'{msg}: max deviation {float(np.max(np.where(np.isnan(d), np.inf, d)))}, '
                       f'got {brief(a)}, expected {brief(b)}')

    def same(self, a, b, msg, tol=1e-9):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.evals += 1
            raise Fail(f'{msg}: shape {a.shape}, expected {b.shape}')
        self.close(a, b, msg, tol)

    def rejects(self, f, msg, exc=(ValueError, AssertionError, IndexError, KeyError, FileNotFoundError)):
        self.evals += 1
        try:
            f()
        except exc:
            return
        except Exception as e:
            raise Fail(f'{msg}: raised {type(e).__name__} ({e}) instead of rejecting the argument')
        raise Fail(f'{msg}: the call was accepted')

    def skip(self):
        raise Skip()


def case_seed(prop, name, index, seed):
    h = hashlib.sha256(f'{prop}/{name}/{index}/{seed}'.encode()).digest()
    return int.from_bytes(h[:8], 'big')


def run_case(prop, name, index, seed):
    """-> (status, message, log, evals)"""
    c = REGISTRY[prop][name]
    g = Gen(case_seed(prop, name, index, seed), index)
    owner = os.getpid()

    def onalarm(*_):
        if os.getpid() != owner:
            os._exit(1)
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(c['limit'])
    out = _io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter('ignore')
            np.random.seed(case_seed(prop, name, index, seed) % (2 ** 32))
            with np.errstate(all='ignore'):
                c['f'](g)
        return 'ok', '', g.log, g.evals
    except Skip:
        return 'skip', '', g.log, 0
    except Fail as e:
        return 'fail', str(e), g.log, g.evals
    except CaseTimeout:
        return 'fail', f'no result after {c["limit"]} s (deadlock or non-termination)', g.log, g.evals
    except MemoryError as e:
        return 'error', 'out of memory', g.log, g.evals
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join(f'{os.path.basename(t.filename)}:{t.lineno}' for t in tb[-4:])
        inlib = any('/repo/' in t.filename or 'spaudiopy' in t.filename for t in tb)
        return ('fail' if inlib else 'error'), f'{type(e).__name__}: {e} [{where}]', g.log, g.evals
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_contract(prop, name, seed, tier, scale=1.0):
    c = REGISTRY[prop][name]
    n = int((c['cases'] if tier == 'quick' else c['thorough']) * scale)
    budget = c['budget'] * (1 if tier == 'quick' else 12) * max(scale, 1)
    t0 = time.time()
    res = dict(name=name, cases=0, skipped=0, evals=0, fails=[], errors=[], sample=None, fns=c['fns'])
    for i in range(n):
        st, msg, log, ev = run_case(prop, name, i, seed)
        res['evals'] += ev
        if st == 'skip':
            res['skipped'] += 1
        else:
            res['cases'] += 1
            if res['sample'] is None and log:
                res['sample'] = f'{name}[{i}]: ' + '; '.join(log)[:600]
        if st == 'fail':
            res['fails'].append(dict(index=i, message=msg, log=log))
            if len(res['fails']) >= 2:
                break
        elif st == 'error':
            res['errors'].append(dict(index=i, message=msg, log=log))
            if len(res['errors']) >= 2:
                break
        if time.time() - t0 > budget and res['cases'] >= 2:
            break
    res['wall'] = time.time() - t0
    return res
