"""Obligations: specifications over the real functions and their discharge."""
import os
import subprocess
import time
import types
import traceback
import contextlib
from . import terms as T
from . import core as C
from . import sym as Y
from . import interp as IP
from . import npf
from . import numeric
from . import laws
from . import par
from .terms import P, P_, ZERO, ONE, Fr, Unsupported
from .sym import S, Arr, SList, lift, mk, as_arr

REG = {}


def obligation(prop, name, bound=None, assumptions=(), timeout=100):
    """register an obligation.  bound: None if it holds for all sizes, else the stated bound"""
    def deco(f):
        REG.setdefault(prop, {})[name] = dict(name=f'{prop}/{name}', prop=prop, fn=f, bound=bound, assumptions=list(assumptions),
                                              timeout=timeout, doc=(f.__doc__ or '').strip())
        return f
    return deco


class Refuted(Exception):
    pass


class Open(Exception):
    pass


class V:
    """interface of a specification to the verifier; one instance per explored path"""

    def __init__(self, rec):
        self.rec = rec
        self.I = IP.Interp()
        par.reset()
        self.ctx = C.CTX

    # -- symbolic inputs
    def int(self, name, lo=None, hi=None):
        v = P_(T.var(name, 'I', lo is not None and lo >= 0))
        npf.RIGID.add(v.as_atom().id)
        if lo is not None:
            self.ctx.assume(T.ind_ge(v - lift(lo)))
        if hi is not None:
            self.ctx.assume(T.ind_ge(lift(hi) - v))
        return S(v)

    def real(self, name, pos=False, nonneg=False):
        v = P_(T.var(name, 'R', pos or nonneg))
        if pos:
            self.ctx.assume(ONE - T.ind_ge(-v))
        return S(v)

    def cplx(self, name):
        return S(P_(T.var(name, 'C')))

    def reals(self, names):
        return [self.real(n) for n in names.split()]

    def array(self, name, shape, sort='R', nn=False):
        """array of arbitrary content; protected: the code may not write to it"""
        shape = tuple(lift(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        a = Arr(shape, lambda i: T.app(name, *i, sort=sort, nn=nn), sort)
        a.protected = name
        return a

    def concrete_array(self, name, shape, sort='R'):
        """array of concrete shape with independent symbolic entries"""
        def fn(i):
            if all(x.is_const() for x in i):
                return P_(T.var(name + '_' + '_'.join(str(int(x.const())) for x in i), sort))
            return Y.select(i, shape, lambda c: P_(T.var(name + '_' + '_'.join(map(str, c)), sort)))
        a = Arr(shape, fn, sort)
        a.protected = name
        return a

    def index(self, name, lo, hi):
        """arbitrary index lo <= v < hi"""
        v = T.new_index(name, lift(lo), lift(hi))
        npf.RIGID.add(v.id)
        self.ctx.assume(T.ind_ge(P_(v) - lift(lo)))
        self.ctx.assume(T.ind_ge(lift(hi) - 1 - P_(v)))
        return S(P_(v))

    def instantiate(self, *js):
        self.ctx.instantiate(*[lift(j) for j in js])

    def forall(self, f, lo=0, hi=None):
        """the conditions f(j) hold for every integer lo <= j < hi (proved elsewhere, or part of the domain): available inside loops"""
        self.ctx.foralls.append((lift(lo), None if hi is None else lift(hi), lambda j: [lift(c) for c in f(S(j))]))

    def assume(self, c):
        self.ctx.assume(lift(c))

    def nonzero(self, x):
        self.ctx.assume(ONE - T.ind_eq(lift(x)))

    # -- hypotheses on sums of products
    def gram(self, name, lo, hi, value, weight=None, pos=0, conj=True):
        """hypothesis: sum_{q in [lo,hi)} conj(name(..q..c)) name(..q..d) weight(q) = value(c, d);
        pos is the argument position of q, c and d are the other argument"""
        lo, hi = lift(lo), lift(hi)

        def rule(bs, gm):
            for i, (b, l, h) in enumerate(bs):
                if l != lo or h != hi:
                    continue
                fac = []
                wts = 0
                ok = True
                rest = {}
                for a, e in gm.items():
                    A = T.atom(a)
                    if b.id not in A.fv:
                        rest[a] = e
                        continue
                    cj = False
                    if A.kind == 'conj':
                        A, cj = T.atom(A.data), True
                    if A.kind == 'app' and A.data[0] == name and A.data[1][pos] == P_(b) and e in (1, 2) and not any(
                            b.id in x.fv for k, x in enumerate(A.data[1]) if k != pos and isinstance(x, P)):
                        fac += [(cj, A)] * int(e)
                    elif weight is not None and A.kind == 'app' and A.data[0] == weight and A.data[1] == (P_(b),) and e == 1:
                        wts += 1
                    else:
                        ok = False
                        break
                if not ok or len(fac) != 2 or wts != (weight is not None):
                    continue
                if any(b.id in x.fv for k, (_, l2, h2) in enumerate(bs) if k != i for x in (l2, h2)):
                    continue
                others = [tuple(x for k, x in enumerate(A.data[1]) if k != pos) for _, A in fac]
                if fac[0][1].sort == 'C' and conj:
                    if fac[0][0] == fac[1][0]:
                        continue
                    c, d = (others[0], others[1]) if fac[0][0] else (others[1], others[0])
                else:
                    c, d = others
                val = lift(value(*([S(x) for x in c + d])))
                return T.msum(bs[:i] + bs[i + 1:], val * T.mono_poly(rest))
            return None
        T.SUM_RULES.append(rule)

    def law(self, lhs, n, value):
        """hypothesis: for all n-tuples of indices, the sum of products lhs equals value"""
        if not laws.law(lhs, n, value):
            raise Unsupported('hypothesis is not a sum of products')

    def symmetric(self, name, n):
        """arbitrary symmetric real matrix"""
        laws.symmetric(name)
        return self.array(name, (n, n))

    def rank(self, kind, pred):
        """hypothesis: arrays satisfying pred have full column ('col') or row ('row') rank"""
        self.I.rank_rules.append((pred, kind))

    def sum_of_squares(self, lo, hi, f):
        """sum of f(i)^2 over lo <= i < hi for real f; its sign is a fact"""
        i = S(P_(T.new_index('i', lift(lo), lift(hi))))
        if not lift(f(i)).is_real():
            raise Unsupported('squares of complex values')
        r = self.sum(lo, hi, lambda k: f(k) * f(k))
        self.ctx.assume(T.ind_ge(lift(r)))
        return r

    # -- execution
    def contract(self, f, h):
        """use h as the contract of the callee f"""
        self.I.contracts[f] = h

    def call(self, f, *a, **k):
        r = self.I.call(f, a, k)
        return r

    def separately(self, f):
        """f() on each of its paths, without multiplying with the paths of what follows"""
        ctx = self.ctx
        ex, snap = C.Explorer(), ctx.snapshot()
        ctx.explorers.append(ex)
        try:
            while True:
                ex.start()
                ctx.restore(snap)
                try:
                    f()
                except C.Infeasible:
                    pass
                if not ex.advance():
                    break
        finally:
            ctx.explorers.pop()
            ctx.restore(snap)

    def call_body(self, f, rec, *a, **k):
        """run the body of f with its recursive calls under the contract rec"""
        self.I.contracts[f], self.I.body_of = rec, f
        try:
            return self.I.call(f, a, k)
        finally:
            self.I.body_of = None
            del self.I.contracts[f]

    def raises(self, exc, f, *a, at=(), **k):
        """the call raises exc; at: indices at which facts about all indices are used"""
        try:
            self.I.call(f, a, k)
            if at:
                self.instantiate(*at)
                if not self.ctx.feasible():
                    raise C.Infeasible()
        except exc:
            self.rec['count'] += 1
            self.rec['vcs'].append(('raises', True, 'execution', ''))
            return
        self.fail(f'{exc.__name__} not raised')

    def get(self, o, name):
        return self.I.getattr(o, name)

    def set(self, o, name, value):
        self.I.setattr(o, name, value)

    def calls(self, name):
        return [c for c in self.I.calls if c.name == name]

    # -- proof
    def _numeric(self, p):
        """try to refute p == 0: environment with p clearly non-zero and the facts true"""
        names = set()
        self.samples = 0
        for f, _ in self.ctx.facts:
            names |= C.support(f) if isinstance(f, P) else C.support(P_(T.atom(f)))
        opaque = {a for a in C.support(p) | deep_atoms(p) if T.atom(a).kind == 'app' and '#' in str(T.atom(a).data[0])}
        if opaque:
            return None
        good, t0 = 0, time.process_time()
        pinned = []
        for f, val in self.ctx.facts:
            A = None if isinstance(f, P) else T.atom(f)
            if A is not None and val and A.data[0] == 'eq':
                q = A.data[1]
                for m, c in q.d.items():
                    if len(m) == 1 and m[0][1] == 1 and T.atom(m[0][0]).kind == 'var' and T.atom(m[0][0]).sort == 'I' and abs(c) == 1 \
                            and m[0][0] not in {x for x, _, _ in pinned} and m[0][0] not in C.support(q - P({m: c})):
                        pinned.append((m[0][0], q - P({m: c}), -int(c)))
                        break
        for seed in range(400):
            e = numeric.Ev({}, seed)
            if seed > 60 and time.process_time() - t0 > 3:
                break
            try:
                ok = True
                for a, q, c in pinned:
                    e.env[a] = int(round(numeric.re_(e.poly(q, {})))) * c
                    if T.atom(a).nn and e.env[a] < 0:
                        ok = False
                if not ok:
                    continue
                for f, val in self.ctx.facts:
                    t = e.poly(f if isinstance(f, P) else P_(T.atom(f)), {})
                    if bool(round(numeric.re_(t))) != val:
                        ok = False
                        break
                if not ok or not self._ranges(e, p):
                    continue
                x = e.poly(p, {})
                good += 1
                self.samples = good
                if abs(x) > 1e-5 and self._stable(e, p, x):
                    return {T.atom(a).data[0]: v for a, v in e.env.items()}
            except (numeric.NoValue, OverflowError, ZeroDivisionError):
                continue
            if good > 80 or good > 6 and time.process_time() - t0 > 2:
                return None
        return None

    def _stable(self, e, p, x):
        """the value is not the rounding error of a cancellation"""
        env = {a: v * (1 + 3e-13 * ((7 * i) % 5 - 2)) if isinstance(v, (float, complex)) else v
               for i, (a, v) in enumerate(e.env.items())}
        y = numeric.Ev(env, e.seed).poly(p, {})
        return abs(x - y) < .05 * abs(x)

    def _ranges(self, e, p):
        for a in list(e.env):
            rg = T.RANGE.get(a)
            if rg:
                if not (e.poly(rg[0], {}) <= e.env[a] < e.poly(rg[1], {})):
                    return False
        for a in deep_atoms(p):
            rg = T.RANGE.get(a)
            if rg and a not in e.env:
                lo, hi = e.poly(rg[0], {}), e.poly(rg[1], {})
                if hi <= lo:
                    return False
                e.env[a] = int(lo) + (hash((a, e.seed)) % int(hi - lo))
        return True

    def zero(self, p, what='', lemmas=()):
        """p == 0 under the current facts"""
        self.rec['count'] += 1
        p = P_(p)
        r = C.prove_zero(p)
        if r:
            self.rec['vcs'].append((what, True, r.how, ''))
            return
        env = self._undecided(r, C.CTX.simp(p, solve=True))
        if env is not None:
            raise Refuted(f'{what}: difference {str(p)[:300]} non-zero e.g. at {str(env)[:400]}')
        raise self._failed(what, r)

    def _undecided(self, r, p):
        if r.how == 'timeout':
            raise Open('time limit')
        return self._numeric(p)

    def _failed(self, what, r):
        """a goal that is neither proved nor refuted; 'failed' if no numerical sample speaks for it either"""
        o = Open(f'{what}: not discharged ({self.samples} numerical samples agree): {r.detail[:400]}')
        o.failed = self.samples == 0
        return o

    def split(self, *conds):
        """case distinction for the checks in the loop body: first true condition, or none"""
        snap = self.ctx.snapshot()
        try:
            for i in range(len(conds) + 1):
                self.ctx.restore(snap)
                try:
                    for j, c in enumerate(conds[:i + 1]):
                        c = lift(c)
                        self.ctx.assume(c if j == i else ONE - c)
                    if not self.ctx.feasible():
                        continue
                except C.Infeasible:
                    continue
                yield i
        finally:
            self.ctx.restore(snap)

    def holds(self, c):
        """decide c, exploring both cases"""
        return self.ctx.decide_poly(lift(c))

    def firsts(self, x):
        """the search results occurring in a value"""
        return [S(P_(T.atom(a))) for a in sorted(deep_atoms(lift(x))) if T.atom(a).kind == 'app' and T.atom(a).data[0] == 'first'
                and not any(T.atom(f).kind == 'bv' for f in T.atom(a).fv if f != IP.FIRSTVAR.id)]

    def found(self, f):
        """the search succeeds: the condition holds at its result"""
        A = lift(f).as_atom()
        key, lo, hi = A.data[1]
        self.ctx.assume(T.ind_ge(hi - 1 - lift(f)))
        self.ctx.assume(T.ind_ge(lift(f) - lo))
        self.ctx.assume(T.subs(key, {IP.FIRSTVAR.id: lift(f)}))

    def not_before(self, f, k):
        """an iteration before the result of the search does not satisfy the condition"""
        A = lift(f).as_atom()
        key, lo, hi = A.data[1]
        k = lift(k)
        c = T.subs(key, {IP.FIRSTVAR.id: k})
        self.ctx.assume(ONE - T.ind_ge(lift(f) - 1 - k) * T.ind_ge(k - lo) * c)

    def extremal(self, x, *js):
        """every argmin/argmax occurring in x attains the extremum: compared with the entries js"""
        found = []
        for a in sorted(deep_atoms(lift(x))):
            A = T.atom(a)
            if A.kind != 'app' or A.data[0] not in ('argmin', 'argmax'):
                continue
            key, n = A.data[1]
            bvs = [b for b in key.fv if T.atom(b).kind == 'bv']
            if not bvs:
                continue
            b = max(bvs, key=lambda b: T.atom(b).data)
            best = T.subs(key, {b: P_(A)})
            sg = 1 if A.data[0] == 'argmax' else -1
            for j in js:
                self.ctx.assume(T.ind_ge((best - T.subs(key, {b: lift(j)})) * sg))
            self.ctx.assume(T.ind_ge(n - 1 - P_(A)))
            found.append(S(P_(A)))
        return found

    def extrema(self, idx, *xs):
        """every maximum or minimum over whole arrays of idx's dimension occurring in the path or in xs bounds the entry idx; returns them"""
        seen = set()
        for f, _ in self.ctx.facts:
            seen |= deep_atoms(f if isinstance(f, P) else P_(T.atom(f)))
        for x in xs:
            seen |= deep_atoms(lift(x))
        idx = tuple(lift(i) for i in idx)
        out = []
        for p, (which, dims, g) in list(Y.EXT.items()):
            A = p.as_atom()
            if A is None or A.id not in seen or len(dims) != len(idx):
                continue
            d = p - g(idx)
            self.ctx.assume(T.ind_ge(d if which == 'max' else -d))
            out.append(S(p))
        return out

    def instance(self, rec, choose):
        """arguments and result of a recorded call for given values of its index variables; choose maps the upper end of the
        range of such a variable to its value"""
        mp = {}
        for d in rec.deps:
            hi = T.RANGE[d][1]
            for h, val in choose:
                if hi == lift(h):
                    mp[d] = lift(val)
        return [Y.vsubs(a, mp) for a in rec.args], npf.res_subs(rec.result, mp)

    def eq(self, a, b, what=''):
        """equality of values (scalars; arrays for all indices)"""
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (Y.has_sym(a) or Y.has_sym(b)) and not (
                all(Y.is_scalar(x) for x in list(a) + list(b)) and False):
            if len(a) != len(b):
                raise Refuted(f'{what}: lengths {len(a)} and {len(b)}')
            for i, (x, y) in enumerate(zip(a, b)):
                self.eq(x, y, f'{what}[{i}]')
            return
        if isinstance(a, (Arr, SList)) or isinstance(b, (Arr, SList)) or hasattr(a, 'shape') and getattr(a, 'ndim', 0):
            a, b = as_arr(a), as_arr(b)
            self.same_shape(a, b, what)
            idx = [T.new_index('e', 0, P_(d)) for d in a.shape_]
            if all(isinstance(d, int) and d <= 12 for d in a.shape_) and a.ndim <= 2:
                from itertools import product
                for t in product(*[range(d) for d in a.shape_]):
                    i = tuple(P_(x) for x in t)
                    self.zero(a.at(i) - b.at(i), f'{what}{list(t)}')
                return
            i = tuple(P_(v) for v in idx)
            self.zero(a.at(i) - b.at(i), what)
            return
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            if not (Y.is_sym(a) or Y.is_sym(b)):
                self.rec['count'] += 1
                if a is not b and a != b:
                    raise Refuted(f'{what}: {a} is not {b}')
                self.rec['vcs'].append((what, True, 'execution', ''))
                return
        self.zero(lift(a) - lift(b), what)

    def same_shape(self, a, b, what=''):
        sa = a.shape_ if isinstance(a, Arr) else tuple(P_(lift(x)) for x in a)
        sb = b.shape_ if isinstance(b, Arr) else tuple(P_(lift(x)) for x in b)
        if len(sa) != len(sb):
            raise Refuted(f'{what}: shapes {sa} and {sb}')
        for x, y in zip(sa, sb):
            self.zero(P_(x) - P_(y), what + ' shape')

    def true(self, c, what=''):
        self.rec['count'] += 1
        if isinstance(c, bool):
            if not c:
                raise Refuted(what)
            self.rec['vcs'].append((what, True, 'execution', ''))
            return
        p = lift(c)
        r = C.prove_true(p)
        if r:
            self.rec['vcs'].append((what, True, r.how, ''))
            return
        env = self._undecided(r, ONE - C.CTX.simp(p, solve=True))
        if env is not None:
            raise Refuted(f'{what}: false e.g. at {str(env)[:400]}')
        raise self._failed(what, r)

    def fail(self, what):
        raise Refuted(what)

    def need(self, ok, what):
        """the code is of a form this specification can speak about"""
        if not ok:
            self.structure(what)

    def structure(self, what):
        """the code is not of the form this specification's argument needs"""
        raise Open('argument does not apply: ' + what)

    def sum(self, lo, hi, f):
        return S(Y.tsum(lift(lo), lift(hi), lambda k: lift(f(S(k)))))

    def prod(self, lo, hi, f):
        k = T.new_index('k', lift(lo), lift(hi))
        return S(T.mk_prod(k, lift(lo), lift(hi), lift(f(S(P_(k))))))

    def lemma(self, name, *facts):
        """lean/<name>.lean proves a theorem of that name without further axioms; the facts are instances of it"""
        if not check_lean(name):
            raise Open(f'lemma {name} is not accepted')
        self.rec['count'] += 1
        self.rec['vcs'].append((f'lemma {name}', True, 'lean', ''))
        for f in facts:
            self.ctx.assume(lift(f))

    def explicit(self, x):
        """value with the harmonics of concrete degree written out"""
        return S(npf.expand_np(lift(x)))

    def at(self, a, *idx):
        return S(as_arr(a).at(tuple(lift(i) for i in idx)))

    def state(self, *objs):
        """attribute values of objects, for same_state"""
        return [(o, dict(o.__dict__)) for o in objs]

    def same_state(self, state, but=()):
        """the objects have the attribute values they had (attributes added meanwhile are not looked at)"""
        for o, d in state:
            for n, x in d.items():
                if n in but:
                    continue
                if n not in o.__dict__:
                    raise Refuted(f'attribute {n} is removed')
                y = o.__dict__[n]
                if y is x:
                    self.rec['count'] += 1
                    self.rec['vcs'].append((f'attribute {n}', True, 'execution', ''))
                elif Y.is_sym(x) and Y.is_sym(y) or isinstance(x, (str, int, float)):
                    self.eq(y, x, f'attribute {n}')
                else:
                    raise Refuted(f'attribute {n} is changed')

    def frame(self):
        """no caller-owned array was written"""
        self.rec['count'] += 1
        w = [x for k, x in self.ctx.log if k == 'frame']
        if w:
            raise Refuted('writes to the argument ' + ', '.join(sorted(set(w))))
        self.rec['vcs'].append(('frame', True, 'ownership', ''))


_lean = {}


def check_lean(name):
    if name not in _lean:
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean', name + '.lean')
        try:
            src = open(f).read()
            r = subprocess.run(['lean', f], capture_output=True, text=True, timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            _lean[name] = False
            return False
        ax = [l for l in r.stdout.splitlines() if l.startswith(f"'{name}' depends on axioms:")]
        ok = r.returncode == 0 and len(ax) == 1 and 'theorem ' + name + ' ' in src and 'error' not in r.stdout
        if ok:
            used = set(ax[0].split('[', 1)[1].rstrip(']').replace(' ', '').split(','))
            ok = used <= {'propext', 'Classical.choice', 'Quot.sound'}
        _lean[name] = ok
    return _lean[name]


def deep_atoms(p, acc=None):
    acc = set() if acc is None else acc
    for m in p.d:
        for a, _ in m:
            if a in acc:
                continue
            acc.add(a)
            A = T.atom(a)
            if A.kind == 'app':
                for q in A.data[1]:
                    if isinstance(q, P):
                        deep_atoms(q, acc)
            elif A.kind == 'conj':
                deep_atoms(P_(T.atom(A.data)), acc)
            elif A.kind == 'ind':
                deep_atoms(A.data[1], acc)
            elif A.kind == 'pa':
                deep_atoms(A.data, acc)
            elif A.kind == 'pw':
                deep_atoms(P({A.data[1]: Fr(1)}), acc)
                if isinstance(A.data[0], P):
                    deep_atoms(A.data[0], acc)
            elif A.kind == 'sum':
                deep_atoms(P({A.data[2]: Fr(1)}), acc)
                for lo, hi in A.data[1]:
                    deep_atoms(lo, acc)
                    deep_atoms(hi, acc)
            elif A.kind == 'prod':
                for q in A.data[1:]:
                    deep_atoms(q, acc)
            if A.kind == 'var':
                rg = T.RANGE.get(a)
                if rg:
                    deep_atoms(rg[0], acc)
                    deep_atoms(rg[1], acc)
    return acc


def run_obligation(o):
    """discharge one obligation: every path of the specification"""
    t0, c0 = time.time(), time.process_time()          # limits are in processor time, the machine may be shared
    rec = dict(vcs=[], count=0)
    out = dict(name=o['name'], bound=o['bound'], doc=o['doc'], functions=[], assumptions=list(o['assumptions']))
    fns, used = set(), set()
    C.PROVE_DEADLINE[0] = c0 + o['timeout']
    status, detail = 'proved', ''
    ex = C.Explorer()
    Y.DIVISORS.clear()
    ctx = C.new_ctx()
    divs = []
    try:
        npaths = 0
        while True:
            ctx = C.new_ctx()
            ctx.explorers.append(ex)
            ex.start()
            T.SUM_RULES.clear()
            laws.reset()
            v = V(rec)
            try:
                o['fn'](v)
                npaths += 1
            except C.Infeasible:
                pass
            finally:
                fns |= v.I.functions
                used |= v.I.used_contracts
            if time.process_time() - c0 > o['timeout']:
                raise Open('time limit')
            divs += Y.DIVISORS
            und = undefined_divisors(ctx)
            for d in und:
                out['assumptions'].append('non-zero divisor: ' + d)
            Y.DIVISORS.clear()
            if not ex.advance():
                break
        if npaths == 0 or not rec['vcs']:
            status, detail = 'open', 'no path reaches a verification condition'
    except (Refuted, C.Violation) as e:
        status, detail = 'refuted', str(e)
    except Open as e:
        status, detail = 'open', str(e)
        out['failed'] = getattr(e, 'failed', False)
    except Unsupported as e:
        status, detail = 'open', 'outside the verifier: ' + str(e)
    except RecursionError:
        status, detail = 'open', 'recursion limit'
    except Exception as e:
        feas = True
        try:
            feas = C.CTX.feasible()
        except Exception:
            pass
        tb = traceback.extract_tb(e.__traceback__)
        status = 'open'
        detail = f'{type(e).__name__}: {e} ({tb[-1].filename.rsplit("/", 1)[-1]}:{tb[-1].lineno}; path feasible: {feas})'
    backs = {}
    for _, ok, how, _ in rec['vcs']:
        for h in how.split('+'):
            backs[h] = backs.get(h, 0) + 1
    out.update(status=status, detail=detail, checks=rec['count'], backends=sorted(backs), backend_counts=backs,
               wall=time.time() - t0, functions=sorted(fns), callee_contracts=sorted(used))
    out['assumptions'] = sorted(set(out['assumptions']))
    return out


def syn_pos(p):
    """a sum of non-negative monomials, one of them positive"""
    pos = False
    for m, c in p.d.items():
        if c < 0:
            return False
        strict = True
        for a, e in m:
            A = T.atom(a)
            if not (A.nn or isinstance(e, int) and e % 2 == 0 and A.sort != 'C'):
                return False
            if not (A.kind in ('pi', 'prime') or A.kind == 'app' and A.data[0] in ('fact', 'exp') or A.kind == 'pw'):
                strict = False
        pos = pos or strict
    return pos


def undefined_divisors(ctx):
    out = []
    seen = set()
    for p, facts in Y.DIVISORS:
        if p in seen or len(out) > 6:
            continue
        seen.add(p)
        s = p.single()
        if s and all(T.atom(a).kind in ('pi', 'prime') for a, _ in s[1]):
            continue
        if syn_pos(p):
            continue
        if ctx._entails_ne(p) if p.is_real() else False:
            continue
        out.append(str(p)[:120])
    return out
