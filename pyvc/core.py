"""Path conditions, entailment (z3), path exploration and the equality prover."""
import re
import time
import z3
from . import terms as T
from .terms import P, P_, ZERO, ONE, Fr, Unsupported, atom

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'norm': 0, 'smt': 0}


class Violation(Exception):
    """a proof rule shows that the code may misbehave"""


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- SMT translation
class Smt:
    """translate real/integer terms to z3; complex ones to (re, im) pairs"""

    def __init__(self):
        self.defs = []
        self.memo = {}
        self.pmemo = {}
        self.half = {}
        self.seen = set()

    def real(self, p):
        re, im = self.pair(p)
        return re

    def pair(self, p):
        r = self.pmemo.get(p)
        if r is not None:
            return r
        re, im = None, None
        isint = p.is_int() and all(c.denominator == 1 for c in p.d.values())
        for m, c in p.d.items():
            a, b = self.mono(m)
            cc = z3.RealVal(str(c)) if not (isint) else z3.IntVal(int(c))
            if a is not None:
                t = cc * a
                re = t if re is None else re + t
            if b is not None:
                t = cc * b
                im = t if im is None else im + t
        if re is None:
            re = z3.IntVal(0) if isint else z3.RealVal(0)
        self.pmemo[p] = (re, im)
        return re, im

    def mono(self, m):
        re, im = z3.IntVal(1), None
        for a, e in m:
            x, y = self.power(atom(a), e)
            if y is None:
                nre = re * x if x is not None else None
                nim = (im * x) if im is not None else None
                re, im = nre, nim
            else:
                nre = (re * x if re is not None and x is not None else None)
                if im is not None:
                    nre = (nre - im * y) if nre is not None else -(im * y)
                nim = re * y if re is not None else None
                if im is not None and x is not None:
                    nim = nim + im * x if nim is not None else im * x
                re, im = nre, nim
        return re, im

    def power(self, A, e):
        if A.kind == 'I':
            return None, z3.IntVal(1)
        if A.kind == 'pw' and A.data[0] == 'expi':
            return self.expi(A, e)
        e = Fr(e)
        if e.denominator == 1:
            n = int(e)
            x, y = self.base(A)
            if n > 0:
                return self._ipow(x, y, n)
            if y is None:
                key = ('inv', A.id)
                t = self.memo.get(key)
                if t is None:
                    t = z3.Real(f'inv_{A.id}')
                    self.memo[key] = t
                    self.defs.append(t * x == 1)
                return self._ipow(t, None, -n)
            raise Unsupported('complex inverse in SMT')
        # fractional power
        q = e.denominator
        key = ('root', A.id, q)
        t = self.memo.get(key)
        if t is None:
            x, y = self.base(A)
            if y is not None:
                raise Unsupported('complex root in SMT')
            t = z3.Real(f'root{q}_{A.id}')
            self.memo[key] = t
            pw = t
            for _ in range(q - 1):
                pw = pw * t
            self.defs.append(z3.And(t >= 0, pw == x))
            self.defs.append(z3.And((t > 1) == (x > 1), (t < 1) == (x < 1), (t > 0) == (x > 0)))   # consequences, for the solver
        n = e.numerator
        if n > 0:
            return self._ipow(t, None, n)
        k2 = ('rinv', A.id, q)
        u = self.memo.get(k2)
        if u is None:
            u = z3.Real(f'rinv{q}_{A.id}')
            self.memo[k2] = u
            self.defs.append(z3.And(u * t == 1, u > 0))
            self.defs.append(z3.And((t > 1) == (u < 1), (t < 1) == (u > 1)))
        return self._ipow(u, None, -n)

    def _ipow(self, x, y, n):
        rx, ry = x, y
        for _ in range(n - 1):
            if y is None:
                rx = rx * x
            else:
                a = rx * x - ry * y if rx is not None and x is not None else -(ry * y)
                b = (rx * y if rx is not None else 0) + (ry * x if x is not None else 0)
                rx, ry = a, b
        return rx, ry

    def expi(self, A, e):
        e = Fr(e)
        m = A.data[1]
        den = self.half.get(m, 1)
        k = e * den
        if k.denominator != 1:
            raise Unsupported('angle fractions in SMT')
        key = ('cs', A.id)
        cs = self.memo.get(key)
        if cs is None:
            c, s = z3.Real(f'c_{A.id}'), z3.Real(f's_{A.id}')
            cs = self.memo[key] = (c, s)
            self.defs.append(c * c + s * s == 1)
            # signs from the size of the angle
            q = P({m: Fr(1, den)}) / T.PI
            if not any(a == T.PI_ATOM.id for mm in q.d for a, _ in mm) and q.is_real():
                u = self.real(q)
                self.defs.append(z3.And(
                    z3.Implies(z3.And(2 * u <= 1, 2 * u >= -1), c >= 0),
                    z3.Implies(z3.And(4 * u <= 1, 4 * u >= -1), z3.And(c >= s, c >= -s)),
                    z3.Implies(z3.And(u >= 0, u <= 1), s >= 0), z3.Implies(z3.And(u <= 0, u >= -1), s <= 0)))
        c, s = cs
        k = int(k)
        if k < 0:
            return self._ipow(c, -s, -k)
        return self._ipow(c, s, k)

    def base(self, A):
        r = self.memo.get(A.id)
        if r is not None:
            return r
        k = A.kind
        nm = f'{k}_{A.id}'
        im = None
        if k == 'pi':
            x = z3.Real('pi')
            self.defs.append(z3.And(x > z3.RealVal('3.14159265358979'), x < z3.RealVal('3.14159265358980')))
        elif k == 'prime':
            x = z3.IntVal(A.data)
        elif k == 'ind':
            x = z3.If(self.ind(A), z3.IntVal(1), z3.IntVal(0))
        elif k == 'pa':
            x, im = self.pair(A.data)
            if A.sort != 'C' or A.data.is_real():
                im = None
        elif k == 'conj':
            x, y = self.base(atom(A.data))
            im = -y
        elif A.sort == 'C':
            x, im = z3.Real(nm + '_re'), z3.Real(nm + '_im')
        elif A.sort == 'I':
            x = z3.Int(nm)
            if A.nn:
                self.defs.append(x >= 0)
        else:
            x = z3.Real(nm)
            if A.nn:
                self.defs.append(x >= 0)
        self.memo[A.id] = (x, im)
        self.axioms(A, x, im)
        return x, im

    def axioms(self, A, x, im):
        if A.kind == 'app':
            nm, args = A.data
            if nm == 'floor':
                t = self.real(args[0])
                self.defs.append(z3.And(z3.ToReal(x) <= t if t.sort() == z3.RealSort() else x <= t, t < x + 1))
            elif nm == 'abs':
                t = self.real(args[0])
                self.defs.append(x == z3.If(t >= 0, t, -t))
            elif nm == 'rint':
                t = self.real(args[0])
                self.defs.append(z3.And(2 * (x - t) <= 1, 2 * (t - x) <= 1, z3.Implies(z3.And(2 * t <= 1, 2 * t >= -1), x == 0)))
            elif nm == 'par':
                t = self.real(args[0])
                self.defs.append(z3.Or(x == 1, x == -1))
            elif nm == 'isqrt':
                t = self.real(args[0])
                self.defs.append(z3.And(x >= 0, x * x <= t, t <= x * x + 2 * x))
            elif nm == 'idiv':
                a, b = self.real(args[0]), self.real(args[1])
                self.defs.append(z3.Implies(b > 0, z3.And(b * x <= a, a < b * x + b)))
            elif nm == 'modulo':
                a, b = self.real(args[0]), self.real(args[1])
                k = z3.Int(f'modk_{A.id}')
                self.defs.append(z3.Implies(b > 0, z3.And(x >= 0, x < b, a == x + k * b)))
            elif nm == 'atan2':
                pi, _ = self.base(T.PI_ATOM)
                self.defs.append(z3.And(x > -pi, x <= pi))
            elif nm == 'acos':
                pi, _ = self.base(T.PI_ATOM)
                u = self.real(args[0])
                self.defs.append(z3.And(x >= 0, x <= pi))
                self.defs.append(z3.And((x == 0) == (u == 1), (x == pi) == (u == -1)))
            elif nm == 'asin':
                pi, _ = self.base(T.PI_ATOM)
                self.defs.append(z3.And(2 * x >= -pi, 2 * x <= pi))
                u = self.real(args[0])
                self.defs.append(z3.And((x > 0) == (u > 0), (x == 0) == (u == 0)))
            elif nm == 'tanh':
                u = self.real(args[0])
                self.defs.append(z3.And(x > -1, x < 1, z3.Implies(u > 0, z3.And(x > 0, x < u)),
                                        z3.Implies(u < 0, z3.And(x < 0, x > u)), z3.Implies(u == 0, x == 0)))
            for f in APP_AXIOMS.get(nm, ()):
                self.defs += f(self, A, x, im, args)
        elif A.kind == 'pw' and A.data[0] != 'expi':
            self.defs.append(x > 0)
            b = A.data[0]
            if isinstance(b, P) and b.is_const() and b.const() > 1 and all(atom(a).nn for a, e in A.data[1]):
                # c^e, c > 1, e >= 0 (e > 0 if it is a reciprocal: divisors are not zero)
                self.defs.append(x > 1 if all(e < 0 for a, e in A.data[1]) else x >= 1)
        elif A.kind in ('var',):
            rg = T.RANGE.get(A.id)
            if rg is not None:
                lo, hi = self.real(rg[0]), self.real(rg[1])
                self.defs.append(z3.And(lo <= x, x < hi))

    def ind(self, A):
        key = ('b', A.id)
        r = self.memo.get(key)
        if r is None:
            rel, p = A.data
            if rel == 'eq':
                re, im = self.pair(p)
                r = re == 0
                if im is not None:
                    r = z3.And(r, im == 0)
            else:
                r = self.real(p) >= 0
            self.memo[key] = r
        return r

    def prep_angles(self, ps):
        """common denominators of fractional angles"""
        seen = set()

        def walk(p):
            for m in p.d:
                for a, e in m:
                    A = atom(a)
                    if A.kind == 'pw' and A.data[0] == 'expi':
                        d = Fr(e).denominator
                        mm = A.data[1]
                        h = self.half.get(mm, 1)
                        self.half[mm] = h * d // T.gcd(h, d)
                    if a in seen:
                        continue
                    seen.add(a)
                    if A.kind == 'pa':
                        walk(A.data)
                    elif A.kind == 'ind':
                        walk(A.data[1])
                    elif A.kind == 'app':
                        for q in A.data[1]:
                            if isinstance(q, P):
                                walk(q)
        for p in ps:
            walk(p)


APP_AXIOMS = {}


def _arg_axiom(smt, A, x, im, args):
    n = smt.real(args[1])
    return [z3.Implies(n >= 1, z3.And(x >= 0, x <= n - 1))]


def _first_axiom(smt, A, x, im, args):
    lo, hi = smt.real(args[1]), smt.real(args[2])
    return [z3.Implies(lo <= hi, z3.And(lo <= x, x <= hi))]


APP_AXIOMS['first'] = [_first_axiom]
APP_AXIOMS['argmax'] = APP_AXIOMS['argmin'] = [_arg_axiom]


def _support(p, acc):
    """all atom ids reachable from p (through bracket / base / argument structure)"""
    for m in p.d:
        for a, _ in m:
            if a in acc:
                continue
            acc.add(a)
            A = atom(a)
            if A.kind == 'pa':
                _support(A.data, acc)
            elif A.kind == 'ind':
                _support(A.data[1], acc)
            elif A.kind == 'app':
                for q in A.data[1]:
                    if isinstance(q, P):
                        _support(q, acc)
            elif A.kind == 'conj':
                _support(P_(atom(A.data)), acc)
            elif A.kind == 'var':
                rg = T.RANGE.get(a)
                if rg:
                    _support(rg[0], acc)
                    _support(rg[1], acc)
    return acc


_supcache = {}


def support(p):
    r = _supcache.get(p)
    if r is None:
        r = _supcache[p] = frozenset(_support(p, set()))
    return r


_CONSTKINDS = ('I', 'pi', 'prime')


_NAME = re.compile(r'[A-Za-z]\w*_\d+')
_verdicts = {}


def z3_check(constraints, timeout=2000, nl=False):
    """verdict of the solver; queries that differ in the numbering of their variables only are put once"""
    # the first limit counts the solver's steps (about 4000 a millisecond), the second is for steps that take long
    s = z3.Solver()
    s.set('rlimit', 4000 * timeout)
    s.set('timeout', 2 * timeout)
    s.add(*constraints)
    names = {}
    key = (timeout, _NAME.sub(lambda q: names.setdefault(q.group(0), f'?{len(names)}'), s.sexpr()))
    r = _verdicts.get(key)
    if r is not None:
        STATS['z3_repeated'] = STATS.get('z3_repeated', 0) + 1
        return r
    STATS['z3_calls'] += 1
    t, c = time.time(), time.process_time()
    r = s.check()
    if r == z3.unknown and time.process_time() - c < 1.2 * timeout / 1000 < time.time() - t:
        # the machine was busy: the solver did not get the time it was given
        s = z3.Solver()
        s.set('rlimit', 4000 * timeout)
        s.set('timeout', 6 * timeout)
        s.add(*constraints)
        r = s.check()
    STATS['z3_time'] += time.time() - t
    _verdicts[key] = r
    return r


FORALL_OF = {}                     # bracket atom -> (n, f): it holds iff f(j) for all 0 <= j < n


class Ctx:
    """facts (brackets with truth values) and the current exploration state"""

    def __init__(self):
        self.facts = []            # list of (bracket atom id, bool)
        self.known_map = {}
        self.extra = []            # python callables(Smt) -> z3 constraints
        self.explorers = []
        self.cache = {}
        self.version = version_of(())
        self.timeout = 1500
        self.poison = None
        self.assumptions = []
        self.side = []             # side obligations collected during execution
        self.journal = None
        self.parallel = None
        self.lenient = False
        self.derived = set()
        self.log = []
        self.foralls = []          # (lo, hi, f): f(j) holds for lo <= j < hi (hi None: no bound)

    # -- facts
    def snapshot(self):
        return (list(self.facts), dict(self.known_map), self.version, len(self.foralls))

    def restore(self, s):
        self.facts, self.known_map = list(s[0]), dict(s[1])
        self.version = s[2]
        del self.foralls[s[3]:]
        self.derived = {i for i in self.derived if i < len(self.facts)}

    def assume_derived(self, p):
        """assume p, known to follow from the decisions made: not part of path conditions"""
        n = len(self.facts)
        self.assume(p)
        self.derived.update(range(n, len(self.facts)))

    def instantiate(self, *js):
        """assume the universally quantified facts at the given terms"""
        for lo, hi, f in list(self.foralls):
            for j in js:
                g = T.ind_ge(j - lo)
                if hi is not None:
                    g = g * T.ind_ge(hi - 1 - j)
                g = self.simp(g, solve=True)
                if g.is_zero():
                    continue
                for c in f(j):
                    c = self.simp(ONE - g * (ONE - c))
                    if not c.is_const() or c.is_zero():
                        self.assume_derived(c)

    def assume_ind(self, a, val):
        A = atom(a)
        if self.known_map.get(a) == val:
            return
        self.facts.append((a, val))
        self.known_map[a] = val
        self.version = version_of(self.facts)
        if val and a in FORALL_OF:
            hi, f = FORALL_OF[a]
            self.foralls.append((ZERO, hi, f))

    def assume(self, p):
        """assume the 0/1 valued term p"""
        p = self.simp(P_(p))
        if p.is_const():
            if p.const() == 0:
                raise Infeasible()
            return
        # product of brackets
        s = p.single()
        if s and s[0] == 1:
            for a, e in s[1]:
                if atom(a).kind != 'ind':
                    break
            else:
                for a, _ in s[1]:
                    self.assume_ind(a, True)
                return
        # 1 - bracket
        q = ONE - p
        s = q.single()
        if s and s[0] == 1 and len(s[1]) == 1 and atom(s[1][0][0]).kind == 'ind':
            self.assume_ind(s[1][0][0], False)
            return
        # brackets that p implies or excludes
        for a in sorted(p.atoms()):
            if atom(a).kind == 'ind':
                p1, p0 = T.cofactor(p, a)
                if p1.is_zero() or p0.is_zero():
                    self.assume_ind(a, p0.is_zero())
                    return self.assume(p1 if p0.is_zero() else p0)
        # keep as an arithmetic fact
        self.facts.append((p, True))
        self.version = version_of(self.facts)

    # -- oracle interface used by terms
    def known(self, a):
        v = self.known_map.get(a)
        if v is not None:
            return v
        return None

    def known_poly(self, g):
        """truth of a bracket polynomial [..] or 1-[..]"""
        g = self.simp(g, solve=True)
        if g.is_const():
            return g.const() == 1
        return None

    def nonneg(self, p):
        if p.is_const():
            return p.const() >= 0
        return self.entails_ge(p)

    def entails_ge(self, p):
        if p.is_const():
            return p.const() >= 0
        if T.syn_nonneg(p):
            return True
        if not p.is_real():
            return False
        k = ('ge', p, self.version)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._entails(p, 'ge')
        return r

    def entails_eq(self, p):
        if p.is_const():
            return p.const() == 0
        k = ('eq', p, self.version)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._entails(p, 'eq')
        return r

    def _fact_constraints(self, smt, sup):
        sup = set(sup)
        chosen = []
        rest = list(self.facts)
        changed = True
        drop = {a for a in sup if atom(a).kind in _CONSTKINDS}
        sup -= drop
        while changed:
            changed = False
            nr = []
            for f in rest:
                fs = support(f[0]) if isinstance(f[0], P) else support(P_(atom(f[0])))
                fs2 = {a for a in fs if atom(a).kind not in _CONSTKINDS and atom(a).kind != 'ind'}
                if fs2 & sup or not fs2:
                    chosen.append(f)
                    sup |= fs2
                    changed = True
                else:
                    nr.append(f)
            rest = nr
        cons = []
        for f, val in chosen:
            if isinstance(f, P):
                cons.append(smt.real(f) == 1)
            else:
                b = smt.ind(atom(f))
                cons.append(b if val else z3.Not(b))
        return cons

    def _entails(self, p, rel):
        try:
            smt = Smt()
            smt.prep_angles([p] + [f if isinstance(f, P) else P_(atom(f)) for f, _ in self.facts])
            sup = support(p)
            cons = self._fact_constraints(smt, sup)
            if rel == 'ge':
                goal = smt.real(p) < 0
            else:
                re, im = smt.pair(p)
                goal = re != 0 if im is None else z3.Or(re != 0, im != 0)
            for f in self.extra:
                cons += f(smt)
            r = z3_check(cons + smt.defs + [goal], self.timeout)
            if r == z3.unsat:
                return True
            return False
        except (Unsupported, z3.Z3Exception):
            return False

    def feasible(self):
        """is the current path condition satisfiable (unknown counts as yes)"""
        k = ('feas', self.version)
        r = self.cache.get(k)
        if r is None:
            try:
                smt = Smt()
                smt.prep_angles([f if isinstance(f, P) else P_(atom(f)) for f, _ in self.facts])
                cons = []
                for f, val in self.facts:
                    if isinstance(f, P):
                        cons.append(smt.real(f) == 1)
                    else:
                        b = smt.ind(atom(f))
                        cons.append(b if val else z3.Not(b))
                r = z3_check(cons + smt.defs, self.timeout)
                r = r != z3.unsat
            except (Unsupported, z3.Z3Exception):
                r = True
            self.cache[k] = r
        return r

    # -- truth of brackets
    def truth(self, a):
        """True / False / None for bracket atom id a"""
        v = self.known_map.get(a)
        if v is not None:
            return v
        k = ('tr', a, self.version)
        if k in self.cache:
            return self.cache[k]
        A = atom(a)
        rel, p = A.data
        r = None
        if rel == 'eq':
            if self.entails_eq(p):
                r = True
            elif p.is_real() and self._entails_ne(p):
                r = False
        else:
            if self.entails_ge(p):
                r = True
            elif self._entails_lt(p):
                r = False
        self.cache[k] = r
        return r

    def _entails_ne(self, p):
        return self._refute(p, lambda smt, p: smt.real(p) == 0)

    def _entails_lt(self, p):
        return self._refute(p, lambda smt, p: smt.real(p) >= 0)

    def _refute(self, p, mk):
        try:
            smt = Smt()
            smt.prep_angles([p] + [f if isinstance(f, P) else P_(atom(f)) for f, _ in self.facts])
            cons = self._fact_constraints(smt, support(p))
            g = mk(smt, p)
            for f in self.extra:
                cons += f(smt)
            r = z3_check(cons + smt.defs + [g], self.timeout)
            return r == z3.unsat
        except (Unsupported, z3.Z3Exception):
            return False

    def simp(self, p, solve=False):
        """replace brackets with known truth value by constants"""
        while True:
            done = True
            for a in sorted(p.atoms()):
                if atom(a).kind == 'ind':
                    v = self.truth(a) if solve else self.known_map.get(a)
                    if v is not None:
                        p1, p0 = T.cofactor(p, a)
                        p = p1 if v else p0
                        done = False
                        break
            if done:
                return p

    # -- branching
    def decide_poly(self, p):
        """python truth value of a 0/1 term, forking the path where it is open"""
        p = P_(p)
        while True:
            p = self.simp(p, solve=True)
            if p.is_const():
                return p.const() != 0
            inds = [a for a in sorted(p.atoms()) if atom(a).kind == 'ind']
            if not inds:
                v = self.fork(T.ind_eq(p))
                return not v
            a = inds[0]
            v = self.fork_atom(a)
            p1, p0 = T.cofactor(p, a)
            p = p1 if v else p0

    def fork(self, g):
        while True:
            g = self.simp(g, solve=True)
            if g.is_const():
                return g.const() != 0
            a = [x for x in sorted(g.atoms()) if atom(x).kind == 'ind'][0]
            v = self.fork_atom(a)
            p1, p0 = T.cofactor(g, a)
            g = p1 if v else p0

    def fork_atom(self, a):
        if not self.explorers:
            raise Unsupported('undecided condition outside of exploration: ' + str(atom(a)))
        ex = self.explorers[-1]
        v = ex.next(a)
        self.assume_ind(a, v)
        return v


_ver = [0]
_vers = {}


def version_of(facts):
    """number identifying a fact list"""
    k = tuple(facts)
    v = _vers.get(k)
    if v is None:
        _ver[0] += 1
        v = _vers[k] = _ver[0]
    return v


class Explorer:
    """depth first enumeration of decision sequences"""
    MAX = 400

    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.runs = 0

    def start(self):
        self.pos = 0
        self.runs += 1
        if self.runs > self.MAX:
            raise Unsupported('too many paths')

    def next(self, a):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
        else:
            self.prefix.append([a, True])
            v = True
        self.pos += 1
        return v

    def advance(self):
        """move to the next decision sequence; False if exhausted"""
        del self.prefix[self.pos:]
        while self.prefix and self.prefix[-1][1] is False:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1][1] = False
        return True


CTX = None


def ctx():
    return CTX


def new_ctx():
    global CTX
    CTX = Ctx()
    T.set_oracle(CTX)
    return CTX


def ctx_pc(base):
    """path condition added since the fact list had length base, as a 0/1 term"""
    r = ONE
    for i, (f, v) in enumerate(CTX.facts[base:], base):
        if i in CTX.derived:
            continue
        if isinstance(f, P):
            r = r * f
        else:
            g = P_(atom(f))
            r = r * (g if v else ONE - g)
    return r


# ---------------------------------------------------------------- proving equalities
class ProofResult:
    def __init__(self, ok, how, detail=''):
        self.ok, self.how, self.detail = ok, how, detail

    def __bool__(self):
        return self.ok


def clear_denominators(p, rounds=4):
    for _ in range(rounds):
        low = {}
        for m in p.d:
            for a, e in m:
                if e < 0 and atom(a).kind in ('pa', 'var', 'app', 'pi', 'sum', 'prod', 'prime', 'conj') and (
                        atom(a).kind != 'pw'):
                    low[a] = min(low.get(a, 0), e)
        if not low:
            return p
        r = ZERO
        from math import ceil
        mult = ONE
        for a, e in low.items():
            n = ceil(-e)
            A = atom(a)
            if A.kind == 'pa':
                # multiply term by term so that (q)^(-1) * q cancels instead of expanding
                pass
            mult = mult * (P_(A).pow(n) if A.kind != 'pa' else ONE)
        out = ZERO
        for m, c in p.d.items():
            d = dict(m)
            t = P({(): c})
            for a, e in low.items():
                A = atom(a)
                n = ceil(-e)
                ee = d.pop(a, 0) + n
                if A.kind == 'pa':
                    t = t * T._pa_pow(A, ee) if ee != 0 else t
                elif ee != 0:
                    t = t * T.mono_poly({a: ee})
            out = out + (t * T.mono_poly(d) if d else t)
        p = out
    return p


PROVE_DEADLINE = [None]


def prove_zero(p, depth=0, timeout=10000):
    """prove p == 0 under the facts of the current context"""
    c = CTX
    if PROVE_DEADLINE[0] and time.process_time() > PROVE_DEADLINE[0]:
        return ProofResult(False, 'timeout', str(p)[:300])
    if depth == 0:
        p = P_(p)
        for f, v in c.facts:
            if not isinstance(f, P) and v and atom(f).data[0] == 'eq' and not p.fv.isdisjoint(atom(f).data[1].fv):
                p = subst_eq(p, atom(f).data[1])
    p = c.simp(P_(p), solve=True)
    if p.is_zero():
        STATS['norm'] += 1
        return ProofResult(True, 'normaliser')
    inds = [a for a in sorted(p.atoms()) if atom(a).kind == 'ind']
    if inds:
        if depth > 14:
            return ProofResult(False, 'case depth', str(p)[:300])
        a = min(inds, key=lambda x: (0 if atom(x).data[0] == 'eq' else 1, x))
        A = atom(a)
        how = set()
        for v in (True, False):
            s = c.snapshot()
            try:
                c.assume_ind(a, v)
                if not c.feasible():
                    how.add('z3')
                    continue
                p1, p0 = T.cofactor(p, a)
                q = p1 if v else p0
                if v and A.data[0] == 'eq':
                    q = subst_eq(q, A.data[1])
                r = prove_zero(q, depth + 1, timeout)
                if not r:
                    return r
                how.add(r.how)
            finally:
                c.restore(s)
        return ProofResult(True, '+'.join(sorted(how)) + '+cases')
    q = refresh(p)
    if q != p:
        return prove_zero(q, depth + 1, timeout)
    q = clear_denominators(p)
    if q.is_zero():
        STATS['norm'] += 1
        return ProofResult(True, 'normaliser')
    q2 = refresh(q)
    if q2.is_zero():
        return ProofResult(True, 'normaliser')
    # use equalities among the facts
    for f, v in c.facts:
        if not isinstance(f, P) and v and atom(f).data[0] == 'eq':
            q3 = subst_eq(q2, atom(f).data[1])
            if q3 != q2:
                return prove_zero(q3, depth + 1, timeout)
    q3 = align_sums(q2)
    if q3 != q2:
        return prove_zero(q3, depth + 1, timeout)
    q3 = flip_sums(q2)
    if q3 != q2:
        return prove_zero(q3, depth + 1, timeout)
    if depth < 6:
        q3 = products(q2, depth)
        if q3 != q2:
            return prove_zero(q3, depth + 1, timeout)
    q3 = shift_sums(q2)
    if q3 != q2:
        r = prove_zero(q3, depth + 1, timeout)
        if r:
            return r
    q3 = split_sums(q2)
    if q3 != q2:
        r = prove_zero(q3, depth + 1, timeout)
        if r:
            return r
    # an index that can take one value only
    for a in sorted(q2.fv):
        rg = T.RANGE.get(a)
        if rg is not None and (c.simp(T.ind_eq(rg[1] - 1 - rg[0]), solve=True) == ONE):
            return prove_zero(T.subs(q2, {a: rg[0]}), depth + 1, timeout)
        if rg is None and atom(a).kind == 'var' and atom(a).sort == 'I' and atom(a).nn and len(c.facts) and c.entails_eq(P_(atom(a))):
            return prove_zero(T.subs(q2, {a: ZERO}), depth + 1, timeout)
    r = smt_zero(q2, timeout)
    if r:
        STATS['smt'] += 1
        return ProofResult(True, 'z3')
    return ProofResult(False, 'open', str(q2)[:400])


def subst_eq(q, e):
    """use e == 0 to eliminate one variable from q"""
    for m, c in sorted(e.d.items(), key=lambda t: (len(t[0]), t[0])):
        if len(m) == 1 and m[0][1] == 1 and atom(m[0][0]).kind == 'var':
            a = m[0][0]
            rest = P({k: v for k, v in e.d.items() if k != m})
            if a in rest.fv:
                continue
            s = rest.scale(-1 / c)
            if atom(a).sort == 'I' and not s.is_int():
                continue
            return T.subs(q, {a: s})
    return q


def align_sums(p):
    """sums of the same summand over different ranges: as prefix sums from a common start, last terms peeled off"""
    groups = {}
    for a in p.atoms():
        A = atom(a)
        if A.kind == 'sum' and len(A.data[1]) == 1:
            groups.setdefault((A.data[0], A.data[2]), []).append(A)
    mp = {}
    for g in groups.values():
        if len(g) < 2:
            continue
        ref = min(g, key=lambda A: (len(A.data[1][0][0].d), len(A.data[1][0][1].d), A.id))
        lo = ref.data[1][0][0]
        his = []
        for A in g:
            l, h = A.data[1][0]
            his.append(h)
            if l != lo:
                if not (CTX.entails_ge(l - lo) and CTX.entails_ge(h - l)):
                    continue
                his.append(l)

        def prefix(h, body):
            best = None
            for x in his:
                k = h - x
                if k.is_const() and 0 < k.const() <= 4 and CTX.entails_ge(x - lo) and (best is None or k.const() > best[1]):
                    best = (x, k.const())
            v = T.new_index('s', lo, h)
            if best is None:
                return T.mk_sum(v, lo, h, body(P_(v)))
            v = T.new_index('s', lo, best[0])
            r = T.mk_sum(v, lo, best[0], body(P_(v)))
            for t in range(int(best[1])):
                r = r + body(best[0] + t)
            return r
        for A in g:
            rs, mono = T.open_sum(A)
            v, l, h = rs[0]
            bp = T.mono_poly(dict(mono))
            body = lambda x: T.subs(bp, {v.id: x})
            if l == lo:
                q = prefix(h, body)
            elif CTX.entails_ge(l - lo) and CTX.entails_ge(h - l):
                q = prefix(h, body) - prefix(l, body)
            else:
                continue
            if q != P_(A):
                mp[A.id] = q
    if not mp:
        return p
    r = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            t = t * (mp[a].pow(e) if a in mp else T.mono_poly({a: e}))
        r = r + t
    return r


def split_sums(p):
    """sums of the same term over [lo, a) and [lo, b) with a <= b: the longer one is split at a"""
    seen = []
    for m, c in p.d.items():
        for a, e in m:
            A = atom(a)
            if A.kind == 'sum' and len(A.data[1]) == 1 and e == 1 and A not in seen:
                seen.append(A)
    for A in seen:
        for B in seen:
            if A is B or A.data[2] != B.data[2] or A.data[0] != B.data[0]:
                continue
            (lo, hi), (lo2, hi2) = A.data[1][0], B.data[1][0]
            if lo != lo2 or not CTX.entails_ge(hi2 - hi) or not CTX.entails_ge(hi - lo):
                continue
            rs, body = T.open_sum(B)
            v = rs[0][0]
            body = T.mono_poly(dict(body))
            w = T.new_index('s', ZERO, hi2 - hi)
            rest = T.msum([(w, ZERO, hi2 - hi)], T.subs(body, {v.id: P_(w) + hi}))
            return replace_atom(p, B.id, P_(A) + rest)
    return p


def replace_atom(p, a, q):
    r = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for x, e in m:
            t = t * (q.pow(e) if x == a else T.mono_poly({x: e}))
        r = r + t
    return r


def flip_sums(p):
    """sums over f(c - k) counted from the other end"""
    for m, c in p.d.items():
        for a, e in m:
            A = atom(a)
            if A.kind != 'sum' or len(A.data[1]) != 1:
                continue
            rs, body = T.open_sum(A)
            v, lo, hi = rs[0]
            cs = []
            for x, _ in body:
                X = atom(x)
                if X.kind == 'conj':
                    X = atom(X.data)
                if X.kind == 'app' and v.id in X.fv:
                    for q in X.data[1]:
                        if isinstance(q, P) and v.id in q.fv:
                            cs.append(q.d.get(((v.id, 1),), 0))
            if cs and all(x < 0 for x in cs):
                w = T.new_index('s', lo, hi)
                return replace_atom(p, a, T.msum([(w, lo, hi)], T.subs(T.mono_poly(dict(body)), {v.id: lo + hi - 1 - P_(w)})))
    return p


def products(p, depth):
    """products of symbolic length whose factors are all one, or one of whose factors is zero"""
    for m, c in p.d.items():
        for a, e in m:
            A = atom(a)
            if A.kind != 'prod' or any(atom(f).kind == 'bv' for f in A.fv):
                continue
            h, lo, hi, b = A.data
            body = lambda k: T.subs(b, {T.bv(h).id: k})
            k = T.new_index('k', lo, hi)
            s = CTX.snapshot()
            try:
                CTX.assume(T.ind_ge(P_(k) - lo))
                CTX.assume(T.ind_ge(hi - 1 - P_(k)))
                if prove_zero(body(P_(k)) - 1, depth + 3, 2000):
                    return replace_atom(p, a, ONE)
            finally:
                CTX.restore(s)
            for f in sorted(p.fv):
                F = atom(f)
                if F.kind == 'var' and F.sort == 'I' and CTX.entails_ge(P_(F) - lo) and CTX.entails_ge(hi - 1 - P_(F)):
                    if prove_zero(body(P_(F)), depth + 3, 2000):
                        return replace_atom(p, a, ZERO)
    return p


def shift_sums(p):
    """every sum over indices counted from zero"""
    r = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            A = atom(a)
            if A.kind == 'sum' and any(not lo.is_zero() for lo, _ in A.data[1]):
                rs, body = T.open_sum(A)
                mp, nb = {}, []
                for v, lo, hi in rs:
                    lo, hi = T.subs(lo, mp), T.subs(hi, mp)
                    w = T.new_index('s', ZERO, hi - lo)
                    mp[v.id] = P_(w) + lo
                    nb.append((w, ZERO, hi - lo))
                b = T.msum(nb, shift_sums(T.subs(T.mono_poly(dict(body)), mp)))
                t = t * (b if e == 1 else b.pow(e))
            else:
                t = t * T.mono_poly({a: e})
        r = r + t
    return r


def refresh(p):
    """renormalise p under the current facts (rebuild sums and brackets)"""
    r = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            A = atom(a)
            if A.kind == 'sum':
                rs, body = T.open_sum(A)
                b = T.msum(rs, refresh(T.mono_poly(dict(body))))
                t = t * (b if e == 1 else b.pow(e))
            elif A.kind == 'app' and A.data[0] in T.APP_RULES or A.kind == 'app' and A.data[0] in ('abs', 'floor'):
                t = t * T.lift_args(lambda x: x.pow(e), [T.reapp(A, [refresh(x) if isinstance(x, P) else x for x in A.data[1]])])
            elif A.kind == 'pa' and e != 1:
                q = refresh(A.data)
                t = t * (T._pa_pow(A, e) if q == A.data else T.lift_args(lambda x: x.pow(e), [q]))
            else:
                t = t * T.mono_poly({a: e})
        r = r + t
    return r


def smt_zero(p, timeout=10000):
    c = CTX
    try:
        smt = Smt()
        smt.prep_angles([p] + [f if isinstance(f, P) else P_(atom(f)) for f, _ in c.facts])
        cons = c._fact_constraints(smt, support(p))
        re, im = smt.pair(p)
        goal = re != 0 if im is None else z3.Or(re != 0, im != 0)
        for f in c.extra:
            cons += f(smt)
        r = z3_check(cons + smt.defs + [goal], timeout)
        return r == z3.unsat
    except (Unsupported, z3.Z3Exception):
        return False


def prove_true(p, timeout=10000):
    """prove the 0/1 term p under the current facts"""
    c = CTX
    p = c.simp(P_(p), solve=True)
    if p.is_const():
        return ProofResult(p.const() == 1, 'z3' if p.const() == 1 else 'refuted', str(p))
    return prove_zero(p - 1, 0, timeout)
