"""Hash-consed normal form for the scalar terms the verifier reasons about.

A term is a polynomial (class P) over *atoms* with rational coefficients and rational exponents.
Atoms are symbolic variables, pi, the imaginary unit, prime radicals, applications of
uninterpreted / contract functions, conjugates, powers with symbolic exponent (incl. exp(i x)),
Iverson brackets [p==0], [p>=0], finite sums and products with symbolic bounds, and
irreducible multi-term bases carrying a negative or fractional exponent.
Everything is over exact reals / complex numbers (floats are read as the decimal they denote).
"""
from fractions import Fraction as Fr
from itertools import permutations, count
from math import gcd, isqrt as _isqrt, floor as _floor, comb


class Unsupported(Exception):
    """The construct is outside the verifier's reach."""


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'data', 'sort', 'nn', 'fv', 'h', 'name')

    def __repr__(self):
        return show_atom(self)


_atoms = []
_intern = {}
SORTORD = {'I': 0, 'R': 1, 'C': 2}


def _mk(kind, data, sort, nn=False, fv=frozenset(), h=0):
    key = (kind, data)
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind, a.data, a.sort, a.nn, a.fv, a.h = kind, data, sort, nn, fv, h
        if kind in ('var', 'bv'):
            a.fv = frozenset([a.id])
        _atoms.append(a)
        _intern[key] = a
    return a


def atom(i):
    return _atoms[i]


I_ATOM = _mk('I', None, 'C')
PI_ATOM = _mk('pi', None, 'R', True)
_fresh = count()


def reset_fresh():
    global _fresh
    _fresh = count()


def var(name, sort='R', nn=False):
    return _mk('var', (name, sort, nn), sort, nn)


def fresh(prefix, sort='I', nn=False):
    return var(f'{prefix}!{next(_fresh)}', sort, nn)


_BVS = set()        # placeholders of variables bound by an enclosing application, sum or product


def bv(k):
    a = _mk('bv', k, 'I', False)
    _BVS.add(a.id)
    return a


# ---------------------------------------------------------------- polynomials
class P:
    __slots__ = ('d', '_h', '_fv', '_ht')

    def __deepcopy__(self, memo):
        return self

    def __init__(self, d):
        self.d = d
        self._h = None
        self._fv = None
        self._ht = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __ne__(self, o):
        return not self == o

    # -- inspection
    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        if not self.d:
            return Fr(0)
        return self.d[()]

    def is_zero(self):
        return not self.d

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s |= _atoms[a].fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def h(self):
        if self._ht is None:
            self._ht = max([_atoms[a].h for m in self.d for a, _ in m], default=0)
        return self._ht

    def is_int(self):
        for m, c in self.d.items():
            if c.denominator != 1:
                return self._int_special()
            for a, e in m:
                if _atoms[a].sort != 'I' or e < 0 or (isinstance(e, Fr) and e.denominator != 1):
                    return False
        return True

    def _int_special(self):
        # integer valued polynomials with rational coefficients, e.g. n(n+1)/2 (one variable)
        vs = set()
        for m in self.d:
            for a, e in m:
                if _atoms[a].sort != 'I' or e < 0 or (isinstance(e, Fr) and e.denominator != 1):
                    return False
                vs.add(a)
        if len(vs) > 2:
            return False
        deg = max(sum(e for _, e in m) for m in self.d)
        if deg > 5:
            return False
        from itertools import product
        vs = list(vs)
        for vals in product(range(int(deg) + 1), repeat=len(vs)):
            env = dict(zip(vs, vals))
            t = Fr(0)
            for m, c in self.d.items():
                for a, e in m:
                    c = c * Fr(env[a]) ** int(e)
                t += c
            if t.denominator != 1:
                return False
        return True

    def is_real(self):
        for m in self.d:
            for a, e in m:
                if _atoms[a].sort == 'C':
                    return False
        return True

    def atoms(self):
        s = set()
        for m in self.d:
            for a, _ in m:
                s.add(a)
        return s

    def single(self):
        """(coef, mono) if this is a single term."""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            return c, m
        return None

    def as_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return _atoms[s[1][0][0]]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = P_(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-P_(o))

    def __rsub__(self, o):
        return P_(o) - self

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return P({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        o = P_(o)
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        d = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                r = mono_mul(m1, m2)
                if isinstance(r, P):
                    r = r.scale(c1 * c2)
                    extra = r if extra is None else extra + r
                else:
                    c, m = r
                    v = d.get(m, 0) + c * c1 * c2
                    if v:
                        d[m] = v
                    else:
                        d.pop(m, None)
        p = P(d)
        return p if extra is None else p + extra
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * P_(o).pow(-1)

    def __rtruediv__(self, o):
        return P_(o) * self.pow(-1)

    def pow(self, e):
        e = Fr(e)
        if e == 0:
            return ONE
        if e == 1:
            return self
        if not self.d:
            if e > 0:
                return ZERO
            raise ZeroDivisionError('division by zero term')
        k = (self, e, ORACLE.version)
        r = _powcache.get(k)
        if r is None:
            r = _powcache[k] = _pow(self, e)
        return r

    def conj(self):
        if self.is_real():
            return self
        r = ZERO
        for m, c in self.d.items():
            t = P({(): c})
            for a, e in m:
                A = _atoms[a]
                t = t * (mono_poly({a: -e}) if A.kind == 'pw' and A.data[0] == 'expi' else atom_conj(A).pow(e))
            r = r + t
        return r

    def re(self):
        return self if self.is_real() else (self + self.conj()).scale(Fr(1, 2))

    def im(self):
        return ZERO if self.is_real() else (self - self.conj()) * P({((I_ATOM.id, 1),): Fr(-1, 2)})

    def __repr__(self):
        return show(self)


_powcache = {}
ZERO = P({})
ONE = P({(): Fr(1)})


def P_(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return P({((x.id, 1),): Fr(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return P({(): Fr(x)}) if x else ZERO
    if isinstance(x, Fr):
        return P({(): x}) if x else ZERO
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return P_(Fr(repr(x)))
    if isinstance(x, complex):
        return P_(x.real) + P_(x.imag) * I
    raise TypeError(type(x))


def _merge(m1, m2):
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return d


def mono_mul(m1, m2):
    if not m1:
        return Fr(1), m2
    if not m2:
        return Fr(1), m1
    return mono_norm(_merge(m1, m2))


def mono_norm(d):
    """normalise {atom: exp}; returns (coef, mono) or a P."""
    c = Fr(1)
    polys = None
    out = []
    extra = None
    for a, e in d.items():
        A = _atoms[a]
        k = A.kind
        if isinstance(e, Fr) and e.denominator == 1:
            e = int(e)
        if k in ('var', 'app'):
            if k == 'app' and A.data[0] == 'abs' and A.data[1][0].is_real() and (e >= 2 or e <= -2) and isinstance(e, int):
                ev = e - (e % 2) if e > 0 else e + (-e % 2)
                e -= ev
                q = A.data[1][0].pow(ev)
                polys = q if polys is None else polys * q
                if e == 0:
                    continue
            elif k == 'app' and A.data[0] == 'par':
                e = e % 2
                if e == 0:
                    continue
        elif k == 'I':
            if isinstance(e, int):
                e %= 4
                if e >= 2:
                    c = -c
                    e -= 2
                if e == 0:
                    continue
        elif k == 'prime':
            n = _floor(e)
            c *= Fr(A.data) ** n
            e = e - n
            if e == 0:
                continue
        elif k == 'ind':
            if e > 0:
                e = 1
            else:
                raise Unsupported('division by an Iverson bracket')
        elif k == 'pa':
            n = _floor(e)
            if e > 0 and n >= 1:
                q = A.data.pow(n) if n > 1 else A.data
                polys = q if polys is None else polys * q
                e = e - n
                if e == 0:
                    continue
        out.append((a, e))
    out.sort()
    m = tuple(out)
    # opposite order brackets / contradictory equalities are left to the prover
    if polys is None:
        return c, m
    return P({m: c}) * polys if m else polys.scale(c)


def mono_poly(d):
    r = mono_norm(d)
    if isinstance(r, P):
        return r
    return P({r[1]: r[0]})


# ---------------------------------------------------------------- signs (hook to the prover)
class _Oracle:
    version = 0

    def nonneg(self, p):
        return syn_nonneg(p)

    def known(self, a):
        return None


ORACLE = _Oracle()


def set_oracle(o):
    global ORACLE
    ORACLE = o
    _powcache.clear()


def syn_nonneg(p):
    """syntactic p >= 0."""
    for m, c in p.d.items():
        if c < 0:
            return False
        for a, e in m:
            A = _atoms[a]
            if A.nn:
                continue
            if A.sort != 'C' and isinstance(e, int) and e % 2 == 0:
                continue
            if A.sort != 'C' and isinstance(e, Fr) and e.numerator % 2 == 0:
                continue
            return False
    # conj pairs z*conj z
    return True


def nonneg(p):
    if syn_nonneg(p):
        return True
    if not p.is_real():
        return _abs2_form(p)
    return ORACLE.nonneg(p)


def _abs2_form(p):
    """sum of c * prod z^k conj(z)^k * (real nonneg)"""
    for m, c in p.d.items():
        if c < 0:
            return False
        dd = dict(m)
        for a, e in m:
            A = _atoms[a]
            if A.nn or (A.sort != 'C' and e % 2 == 0):
                continue
            if A.sort == 'C':
                ca = atom_conj(A).as_atom()
                if ca is not None and dd.get(ca.id) == e:
                    continue
            return False
    return True


# ---------------------------------------------------------------- powers
def prime_atom(p):
    return _mk('prime', p, 'R', True)


def _factorint(n):
    f = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            f[d] = f.get(d, 0) + 1
            n //= d
        d += 1 if d == 2 else 2
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def const_pow(c, e):
    """rational c ** rational e as P"""
    if e.denominator == 1:
        return P_(c ** int(e))
    if c < 0:
        if e.denominator == 2:
            # principal root
            return const_pow(-c, e) * (I if (e.numerator % 4) == 1 else (I.pow(e.numerator % 4)))
        raise Unsupported('root of a negative constant')
    d = {}
    for p, k in _factorint(c.numerator).items():
        d[prime_atom(p).id] = k * e
    for p, k in _factorint(c.denominator).items():
        d[prime_atom(p).id] = d.get(prime_atom(p).id, 0) - k * e
    return mono_poly(d)


def _content(p):
    """positive rational content"""
    num = 0
    den = 1
    for c in p.d.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fr(num, den)


def _lead(p):
    return max(p.d)


_polyatom_cache = {}


def _factor_poly(p):
    """factor multi-term primitive p into [(P, k)] and a rational unit; uses sympy for small ones"""
    r = _polyatom_cache.get(p)
    if r is not None:
        return r
    res = (Fr(1), [(p, 1)])
    ats = sorted(p.atoms())
    ok = len(ats) <= 6 and len(p.d) <= 40 and all(
        (isinstance(e, int) and 0 < e <= 8) for m in p.d for _, e in m)
    if ok:
        import sympy
        syms = {a: sympy.Symbol(f'x{a}') for a in ats}
        ex = 0
        for m, c in p.d.items():
            t = sympy.Rational(c.numerator, c.denominator)
            for a, e in m:
                t *= syms[a] ** e
            ex += t
        cst, fl = sympy.factor_list(ex)
        if len(fl) > 1 or fl[0][1] > 1:
            inv = {v: k for k, v in syms.items()}
            out = []
            unit = Fr(int(cst.p), int(cst.q))
            for f, k in fl:
                gens = sorted(f.free_symbols, key=lambda s: s.name)
                po = sympy.Poly(f, *gens)
                d = {}
                for mon, c in po.terms():
                    mm = tuple(sorted((inv[g], int(x)) for g, x in zip(gens, mon) if x))
                    d[mm] = Fr(int(c.p), int(c.q))
                out.append((P(d), k))
            res = (unit, out)
    _polyatom_cache[p] = res
    return res


def _pow(p, e):
    if e.denominator == 1 and e > 0:
        n = int(e)
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else r * b
            n >>= 1
            if n:
                b = b * b
        return r
    s = p.single()
    if s:
        c, m = s
        if e.denominator == 1:
            r = P_(c ** int(e))
            rest = {}
            for a, k in m:
                A = _atoms[a]
                if A.kind == 'pa':
                    r = r * _pa_pow(A, k * e)
                elif A.kind == 'sum' or A.kind != 'ind':
                    rest[a] = k * e
                else:
                    raise Unsupported('division by an Iverson bracket')
            return r * mono_poly(rest)
        # fractional exponent: split off what is known to be nonnegative
        r = ONE
        rest = {}
        neg = c < 0
        for a, k in m:
            A = _atoms[a]
            if A.kind == 'pa':
                if A.nn or nonneg(A.data):
                    r = r * _pa_pow(A, k * e)
                else:
                    rest[a] = k
            elif A.nn or A.kind == 'pi' or nonneg(P_(A)):
                r = r * mono_poly({a: k * e})
            elif A.kind == 'ind':
                rest[a] = k
            elif A.sort != 'C' and isinstance(k, int) and k % 2 == 0:
                r = r * fabs(P_(A)).pow(k * e)
            elif A.sort == 'C' and A.kind == 'I':
                rest[a] = k
            else:
                rest[a] = k
        if rest:
            # conj pairs
            q = P({tuple(sorted(rest.items())): Fr(-1) if neg else Fr(1)})
            inds = [a for a in rest if _atoms[a].kind == 'ind']
            if inds and e > 0:
                for a in inds:
                    del rest[a]
                r = r * mono_poly({a: 1 for a in inds})
                q = P({tuple(sorted(rest.items())): Fr(-1) if neg else Fr(1)})
                return r * const_pow(abs(c), e) * q.pow(e)
            if neg and nonneg(-q):
                q = -q
                neg = False
                aq = _as_abs_pair(q)
            return r * const_pow(abs(c), e) * mono_poly({polyatom(q).id: e})
        return r * const_pow(c, e)
    # multi-term: lift Iverson brackets out, take content / common positive factors out
    inds = [a for a in p.atoms() if _atoms[a].kind == 'ind']
    if inds:
        a = inds[0]
        p1, p0 = cofactor(p, a)
        ia = P_(_atoms[a])
        t1 = ia * (p1.pow(e) if not p1.is_zero() else (ZERO if e > 0 else _div0()))
        t0 = (ONE - ia) * (p0.pow(e) if not p0.is_zero() else (ZERO if e > 0 else _div0()))
        return t1 + t0
    c = _content(p)
    lead = _lead(p)
    q = p.scale(1 / c)
    # common monomial factor
    com = None
    for m in q.d:
        dm = dict(m)
        com = dm if com is None else {a: min(k, dm[a]) for a, k in com.items() if a in dm}
    com = {a: k for a, k in (com or {}).items() if _atoms[a].kind != 'ind'}
    # also remove negative exponents present in only some terms (clear simple denominators)
    low = {}
    for m in q.d:
        for a, k in m:
            if k < 0:
                low[a] = min(low.get(a, 0), k)
    for a, k in low.items():
        com[a] = min(com.get(a, 0), k)
    r = ONE
    if com:
        q2 = ZERO
        for m, cc in q.d.items():
            dm = dict(m)
            for a, k in com.items():
                v = dm.get(a, 0) - k
                if v:
                    dm[a] = v
                else:
                    dm.pop(a, None)
            q2 = q2 + mono_poly(dm).scale(cc)
        cm = mono_poly(com)
        if e.denominator == 1:
            return const_pow(c, e) * cm.pow(e) * q2.pow(e)
        if all(_atoms[a].nn or _atoms[a].kind == 'pi' or (isinstance(k, int) and k % 2 == 0 and _atoms[a].sort != 'C')
               or nonneg(P_(_atoms[a])) for a, k in com.items()):
            return const_pow(c, e) * cm.pow(e) * q2.pow(e)
    unit, fl = _factor_poly(q)
    if len(fl) > 1 or fl[0][1] > 1:
        if e.denominator == 1:
            r = const_pow(c * unit, e)
            for f, k in fl:
                r = r * f.pow(e * k)
            return r
        # fractional: every factor must have a known sign
        r = ONE
        s = unit
        good = True
        for f, k in fl:
            if nonneg(f):
                r = r * f.pow(e * k)
            elif nonneg(-f):
                r = r * (-f).pow(e * k)
                s = s * (-1) ** k
            elif k % 2 == 0 and f.is_real():
                r = r * fabs(f).pow(e * k)
            else:
                good = False
                break
        if good and s > 0:
            return const_pow(c * s, e) * r
    sg = 1
    if e.denominator == 1:
        if q.d[_lead(q)] < 0:
            q = -q
            sg = -1
        A = polyatom(q)
        return const_pow(c * sg, e) * mono_poly({A.id: int(e)})
    sq = _abs_square(q)
    if sq is not None and e.denominator == 2:
        return const_pow(c, e) * sq.pow(e * 2)
    return const_pow(c, e) * mono_poly({polyatom(q).id: e})


def _as_abs_pair(q):
    return None


def _abs_square(q):
    return None


def _div0():
    """value of a division by zero in one branch: unspecified (division is total in the term language)"""
    return app('undefined', ZERO, sort='R')


def _pa_pow(A, k):
    k = Fr(k)
    if k.denominator == 1 and k > 0:
        return A.data.pow(k)
    return mono_poly({A.id: int(k) if k.denominator == 1 else k})


def polyatom(q):
    return _mk('pa', q, 'R' if q.is_real() or _is_real_struct(q) else 'C', syn_nonneg(q), q.fv, q.h)


def _is_real_struct(q):
    return q.conj() == q


def cofactor(p, a):
    """(p with bracket a true, p with bracket a false)"""
    d1, d0 = {}, {}
    for m, c in p.d.items():
        if any(x == a for x, _ in m):
            mm = tuple((x, e) for x, e in m if x != a)
            d1[mm] = d1.get(mm, 0) + c
        else:
            d1[m] = d1.get(m, 0) + c
            d0[m] = c
    return P({m: c for m, c in d1.items() if c}), P(d0)


# ---------------------------------------------------------------- special constants and functions
I = P_(I_ATOM)
PI = P_(PI_ATOM)


def atom_conj(A):
    if A.sort != 'C':
        return P_(A)
    if A.kind == 'I':
        return P({((A.id, 1),): Fr(-1)})
    if A.kind == 'conj':
        return P_(_atoms[A.data])
    if A.kind == 'pw' and A.data[0] == 'expi':
        return mono_poly({A.id: -1})
    if A.kind == 'sum':
        bs, body = open_sum(A)
        t = mono_poly(dict(body)).conj()
        for v, lo, hi in bs:
            pass
        return msum(bs, t)
    if A.kind == 'pa':
        cj = A.data.conj()
        if cj == A.data:
            return P_(A)
        return P_(_mk('pa', cj, 'C', False, cj.fv, cj.h))
    if A.kind == 'prod':
        v = fresh('cj')
        _, lo, hi, body = A.data
        b = subs(body, {bv(A.data[0]).id: P_(v)}).conj()
        return mk_prod(v, lo, hi, b)
    return P_(_mk('conj', A.id, 'C', False, A.fv, A.h))


def ind_eq(p):
    """[p == 0]"""
    p = P_(p)
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    p = lift_ind(p)
    if isinstance(p, tuple):
        a, p1, p0 = p
        ia = P_(_atoms[a])
        return ia * ind_eq(p1) + (ONE - ia) * ind_eq(p0)
    # clear positive denominators that are plain coefficients
    c = _content(p)
    p = p.scale(1 / c)
    if p.d[_lead(p)] < 0:
        p = -p
    if p.is_int():
        # gcd of non-constant coefficients must divide the constant
        k = p.d.get((), 0)
        g = 0
        for m, v in p.d.items():
            if m:
                g = gcd(g, abs(v.numerator))
        if k and g and k.numerator % g:
            return ZERO
    if syn_nonneg(p) and p.d.get((), 0) > 0 or (syn_nonneg(-p) and p.d.get((), 0) < 0):
        return ZERO
    return P_(_mk('ind', ('eq', p), 'I', True, p.fv, p.h))


def ind_ge(p):
    """[p >= 0]"""
    p = P_(p)
    if p.is_const():
        return ONE if p.const() >= 0 else ZERO
    p = lift_ind(p)
    if isinstance(p, tuple):
        a, p1, p0 = p
        ia = P_(_atoms[a])
        return ia * ind_ge(p1) + (ONE - ia) * ind_ge(p0)
    if not p.is_real():
        cj = p.conj()
        if cj == p:
            pass
        else:
            raise Unsupported('ordering of complex terms')
    if syn_nonneg(p):
        return ONE
    c = _content(p)
    p = p.scale(1 / c)
    if p.is_int():
        k = p.d.get((), Fr(0))
        g = 0
        for m, v in p.d.items():
            if m:
                g = gcd(g, abs(v.numerator))
        if g > 1:
            rest = P({m: v / g for m, v in p.d.items() if m})
            p = rest + P_(_floor(k / g))
        if not KEEP[0] and _leading(p) < 0:
            return ONE - P_(_mk('ind', ('ge', -p - 1), 'I', True, p.fv, p.h))
    return P_(_mk('ind', ('ge', p), 'I', True, p.fv, p.h))


KEEP = [False]         # renaming of binders in progress: orientations of integer inequalities are kept


def _leading(p):
    """number whose sign orients an integer inequality: invariant under renaming of variables as far as possible"""
    s = sum(v for m, v in p.d.items() if m)
    if s == 0:
        s = sum(v * sum(e for _, e in m) for m, v in p.d.items() if m)
    if s == 0:
        s = sum(v * abs(v) * sum(e for _, e in m) for m, v in p.d.items() if m)
    if s == 0:
        s = p.d[max(m for m in p.d if m)]
    return s


def lift_ind(p):
    """if brackets occur at top level of p return (atom, p|true, p|false) else p"""
    for m in p.d:
        for a, _ in m:
            if _atoms[a].kind == 'ind' and _BVS.isdisjoint(_atoms[a].fv):
                p1, p0 = cofactor(p, a)
                return a, p1, p0
    return p


def lift_args(f, args):
    """apply f to args after lifting brackets out of the arguments"""
    for i, p in enumerate(args):
        if isinstance(p, P):
            t = lift_ind(p)
            if isinstance(t, tuple):
                a, p1, p0 = t
                ia = P_(_atoms[a])
                k = ORACLE.known(a)
                a1 = list(args)
                a1[i] = p1
                a0 = list(args)
                a0[i] = p0
                if k is True:
                    return lift_args(f, a1)
                if k is False:
                    return lift_args(f, a0)
                return ia * _branch(f, a1) + (ONE - ia) * _branch(f, a0)
    return f(*args)


def _branch(f, args):
    try:
        return lift_args(f, args)
    except ZeroDivisionError:
        return _div0()


APP_RULES = {}
NOLIFT = {'first'}      # applications whose first argument is a condition
APP_SORT = {}


def app(name, *args, sort=None, nn=False, lift=True):
    """application of an uninterpreted or contract function"""
    args = tuple(P_(a) if not isinstance(a, (str, tuple)) else a for a in args)
    if lift and name not in NOLIFT and any(isinstance(a, P) and any(_atoms[x].kind == 'ind' for x in a.atoms()) for a in args):
        return lift_args(lambda *b: app(name, *b, sort=sort, nn=nn, lift=False), list(args))
    r = APP_RULES.get(name)
    if r is not None:
        v = r(*args)
        if v is not None:
            return v
    if sort is None:
        sort, nn = APP_SORT.get(name, ('R', nn))
    else:
        APP_SORT.setdefault(name, (sort, nn))
    fv = frozenset().union(*[a.fv for a in args if isinstance(a, P)]) if args else frozenset()
    h = max([a.h for a in args if isinstance(a, P)], default=0)
    return P_(_mk('app', (name, args), sort, nn, fv, h))


def fabs(p):
    if p.is_const():
        return P_(abs(p.const()))
    if not p.is_real():
        q = p * p.conj()
        return q.pow(Fr(1, 2))
    if nonneg(p):
        return p
    if nonneg(-p):
        return -p
    s = p.single()
    if s:
        c, m = s
        r = P_(abs(c))
        for a, e in m:
            A = _atoms[a]
            if A.nn or (isinstance(e, int) and e % 2 == 0):
                r = r * mono_poly({a: e})
            elif A.kind == 'app' and A.data[0] == 'par':
                pass
            elif isinstance(e, int):
                r = r * app('abs', P_(A), sort=A.sort, nn=True).pow(e)
            else:
                r = r * mono_poly({a: e})
        return r
    if p.d[_lead(p)] < 0:
        p = -p
    return app('abs', p, sort='I' if p.is_int() else 'R', nn=True)


def absv(p):
    return lift_args(fabs, [P_(p)])


def floor(p):
    p = P_(p)
    return lift_args(_floorp, [p])


def _floorp(p):
    if p.is_int():
        return p
    ip = P({m: c for m, c in p.d.items() if c.denominator == 1 and P({m: c}).is_int()})
    rest = p - ip
    k = rest.d.get((), Fr(0))
    f = _floor(k)
    if f:
        ip = ip + f
        rest = rest - f
    if rest.is_zero():
        return ip
    if rest.is_const():
        return ip + _floor(rest.const())
    v = ORACLE.floor_hint(rest) if hasattr(ORACLE, 'floor_hint') else None
    if v is not None:
        return ip + v
    return ip + app('floor', rest, sort='I')


def ceil(p):
    return -floor(-P_(p))


def trunc(p):
    p = P_(p)
    if p.is_int():
        return p
    def t(q):
        if q.is_int():
            return q
        if nonneg(q):
            return floor(q)
        if nonneg(-q):
            return ceil(q)
        g = ind_ge(q)
        return g * floor(q) + (ONE - g) * ceil(q)
    return lift_args(t, [p])


def parity(p):
    """(-1)**p for an integer term"""
    r = 1
    out = {}
    def t(p):
        sgn = 1
        d = {}
        for m, c in p.d.items():
            if c.denominator != 1:
                raise Unsupported('parity of a non-integer term')
            if c.numerator % 2 == 0:
                continue
            if not m:
                sgn = -sgn
                continue
            # reduce exponents (n^k == n mod 2), |n| == n mod 2
            mm = {}
            for a, e in m:
                A = _atoms[a]
                if A.kind == 'app' and A.data[0] == 'abs':
                    q = A.data[1][0].as_atom()
                    if q is not None:
                        a = q.id
                mm[a] = 1
            k = tuple(sorted(mm.items()))
            d[k] = d.get(k, 0) + 1
        res = P_(sgn)
        for k, n in d.items():
            if n % 2:
                # n^2+n style cancellation is handled by the exponent reduction above
                res = res * app('par', P({k: Fr(1)}), sort='I')
        return res
    return lift_args(t, [P_(p)])


def expi(p):
    """exp(i p) for a real term p"""
    p = P_(p)
    return lift_args(_expi, [p])


def _pw(base, m, e, sort, nn):
    q = P({m: Fr(1)})
    fv, h = q.fv, q.h
    if isinstance(base, P):
        fv, h = fv | base.fv, max(h, base.h)
    A = _mk('pw', (base, m), sort, nn, fv, h)
    return mono_poly({A.id: int(e) if e.denominator == 1 else e})


def _expi(p):
    r = ONE
    for m, c in p.d.items():
        if m == ((PI_ATOM.id, 1),):
            # exp(i pi c): reduce to [0, 2)
            c = c % 2
            s = 1
            if c >= 1:
                c -= 1
                s = -1
            if c >= Fr(1, 2):
                c -= Fr(1, 2)
                r = r * I
            r = r.scale(s)
            if c == 0:
                continue
            ex = {Fr(1, 4): (2,), Fr(1, 3): (3,), Fr(1, 6): (6,)}.get(c)
            h3 = P_(3).pow(Fr(1, 2)).scale(Fr(1, 2))
            if ex == (2,):
                r = r * (ONE + I) * P_(2).pow(Fr(-1, 2))
            elif ex == (3,):
                r = r * (P_(Fr(1, 2)) + I * h3)
            elif ex == (6,):
                r = r * (h3 + I.scale(Fr(1, 2)))
            else:
                r = r * _pw('expi', m, c, 'C', False)
            continue
        if len(m) >= 2 and dict(m).get(PI_ATOM.id) == 1 and c.denominator == 1:
            rest = tuple(x for x in m if x[0] != PI_ATOM.id)
            q = P({rest: c})
            if q.is_int():
                r = r * parity(q)
                continue
            mods = [a for a, e in rest if e == 1 and _atoms[a].kind == 'app' and _atoms[a].data[0] == 'modulo' and _atoms[a].data[1][1] == ONE]
            if len(rest) == 1 and mods and c.numerator % 2 == 0:
                r = r * expi(PI.scale(c) * _atoms[mods[0]].data[1][0])
                continue
        s = P({m: Fr(1)}).as_atom()
        if s is not None and s.kind == 'app' and s.data[0] in ('atan2', 'acos', 'asin') and c.denominator == 1:
            nm, args = s.data
            if nm == 'atan2':
                y, x = args
                base = (x + I * y) * (x * x + y * y).pow(Fr(-1, 2))
                cb = (x - I * y) * (x * x + y * y).pow(Fr(-1, 2))
            elif nm == 'acos':
                u, = args
                sq = (ONE - u * u).pow(Fr(1, 2))
                base, cb = u + I * sq, u - I * sq
            else:
                u, = args
                sq = (ONE - u * u).pow(Fr(1, 2))
                base, cb = sq + I * u, sq - I * u
            k = int(c)
            r = r * (base.pow(k) if k > 0 else cb.pow(-k))
            continue
        if s is not None and s.kind == 'app' and s.data[0] == 'modulo' and c.denominator == 1:
            x, mm = s.data[1]
            if mm == PI.scale(2):
                r = r * expi(x.scale(c))
                continue
        r = r * _pw('expi', m, c, 'C', False)
    return r


def cos(p):
    p = P_(p)
    return (expi(p) + expi(-p)).scale(Fr(1, 2))


def sin(p):
    p = P_(p)
    return (expi(p) - expi(-p)) * I.scale(Fr(-1, 2))


def _of_log(b, m):
    """b^(q log(u)/log(b)) = u^q"""
    if b.is_const():
        lb = app('log', b, sort='R').as_atom()
        d = dict(m)
        if lb is not None and d.get(lb.id) == -1:
            us = [a for a, e in m if e == 1 and _atoms[a].kind == 'app' and _atoms[a].data[0] == 'log' and a != lb.id]
            if len(us) == 1:
                del d[lb.id], d[us[0]]
                return _atoms[us[0]].data[1][0], mono_poly(d)
    return None


def power(b, e):
    """b ** e with a possibly symbolic exponent"""
    b, e = P_(b), P_(e)
    if e.is_const():
        return lift_args(lambda x: x.pow(e.const()), [b]) if e.const() != 0 else ONE
    if b.is_const() and b.const() == -1 and e.is_int():
        return parity(e)
    if b == I and e.is_int():
        return app('ipow', e, sort='C')
    def f(b, e):
        if e.is_const():
            return b.pow(e.const())
        if b == ONE:
            return ONE
        if b.is_const() and b.const() > 0 or nonneg(b) and b.as_atom() is not None:
            r = ONE
            if b.is_const() and b.const() < 1:
                b = P_(1 / b.const())
                e = -e
            for m, c in e.d.items():
                if not m:
                    r = r * b.pow(c)
                    continue
                u = _of_log(b, m)
                r = r * (power(u[0], u[1].scale(c)) if u else _pw(b, m, c, 'R', True))
            return r
        return app('pow', b, e, sort='R' if b.is_real() else 'C')
    return lift_args(f, [b, e])


# ---------------------------------------------------------------- substitution
def subs(p, mp, cache=None):
    """simultaneous substitution {atom id: P}"""
    if not mp:
        return p
    keys = frozenset(mp)
    if p.fv.isdisjoint(keys):
        return p
    if cache is None:
        cache = {}
    return _subs(p, mp, keys, cache)


def _subs(p, mp, keys, cache):
    if p.fv.isdisjoint(keys):
        return p
    r = cache.get(p)
    if r is not None:
        return r
    plain = {}
    acc = ZERO
    for m, c in p.d.items():
        keep = {}
        t = None
        for a, e in m:
            A = _atoms[a]
            if A.fv.isdisjoint(keys):
                keep[a] = e
            else:
                if A.kind == 'pw' and e != 1:
                    q = pw_subst(A, e, lambda q: _subs(q, mp, keys, cache))
                else:
                    q = _subs_atom(A, mp, keys, cache)
                    q = q if e == 1 else lift_args(lambda x: x.pow(e), [q])
                t = q if t is None else t * q
                if t.is_zero():
                    break
        if t is None:
            v = plain.get(m, 0) + c
            if v:
                plain[m] = v
            else:
                plain.pop(m, None)
        elif not t.is_zero():
            acc = acc + mono_poly(keep).scale(c) * t
    r = P(plain) + acc
    cache[p] = r
    return r


def pw_subst(A, e, f):
    """A^e after the substitution f, for an exponential A = base^x: base^f(e x) (not the principal power of the result)"""
    base, m = A.data
    q = f(P({m: Fr(1)}).scale(e))
    return expi(q) if base == 'expi' else power(f(base) if isinstance(base, P) else base, q)


def _subs_atom(A, mp, keys, cache):
    k = A.kind
    if k in ('var', 'bv'):
        return mp[A.id]
    ck = ('a', A.id)
    r = cache.get(ck)
    if r is not None:
        return r
    S = lambda q: _subs(q, mp, keys, cache) if isinstance(q, P) else q
    if k == 'app':
        r = reapp(A, [S(q) for q in A.data[1]])
    elif k == 'conj':
        r = _subs_atom(_atoms[A.data], mp, keys, cache).conj()
    elif k == 'ind':
        q = S(A.data[1])
        r = ind_eq(q) if A.data[0] == 'eq' else ind_ge(q)
    elif k == 'pa':
        r = S(A.data)
    elif k == 'pw':
        base, m = A.data
        q = S(P({m: Fr(1)}))
        if base == 'expi':
            r = expi(q)
        else:
            r = power(S(base), q)
    elif k == 'sum':
        bs, body = open_sum(A)
        bs = [(v, S(lo), S(hi)) for v, lo, hi in bs]
        r = msum(bs, S(mono_poly(dict(body))))
    elif k == 'prod':
        h, lo, hi, body = A.data
        v = fresh('pv')
        b = subs(body, {bv(h).id: P_(v)})
        r = mk_prod(v, S(lo), S(hi), S(b))
    else:
        raise Unsupported('substitution in ' + k)
    cache[ck] = r
    return r


def reapp(A, args):
    name = A.data[0]
    f = REBUILD.get(name)
    if f is not None:
        return f(*args)
    return app(name, *args, sort=A.sort, nn=A.nn)


REBUILD = {'abs': absv, 'floor': floor, 'par': parity}


# ---------------------------------------------------------------- finite sums
SUM_RULES = []     # callbacks (binders, mono dict) -> P or None
RANGE = {}         # atom id of an index variable -> (lo, hi), half open


def new_index(prefix, lo, hi):
    v = fresh(prefix, 'I')
    RANGE[v.id] = (P_(lo), P_(hi))
    return v


def open_sum(A):
    """rename the binders of a sum atom to fresh variables: ([(v, lo, hi)], mono)"""
    k, KEEP[0] = KEEP[0], True
    try:
        return _open_sum(A)
    finally:
        KEEP[0] = k


def _open_sum(A):
    h, ranges, mono = A.data
    vs = [fresh('s') for _ in ranges]
    mp = {bv(h + i).id: P_(v) for i, v in enumerate(vs)}
    rs = [(v, subs(lo, mp), subs(hi, mp)) for v, (lo, hi) in zip(vs, ranges)]
    for v, lo, hi in rs:
        RANGE[v.id] = (lo, hi)
    body = {}
    for a, e in mono:
        A2 = _atoms[a]
        if A2.fv.isdisjoint(mp):
            body[a] = e
        else:
            if A2.kind == 'pw' and e != 1:
                q, e = pw_subst(A2, e, lambda q: _subs(q, mp, frozenset(mp), {})), 1
            else:
                q = _subs_atom(A2, mp, frozenset(mp), {})
            s = q.single()
            if s and s[0] == 1:
                for b, k in s[1]:
                    body[b] = body.get(b, 0) + k * e
            else:
                s = q.pow(e).single()
                assert s and s[0] == 1, (A2, q, e)
                for b, k in s[1]:
                    body[b] = body.get(b, 0) + k
    return rs, tuple(sorted(body.items()))


def mk_sum(v, lo, hi, body):
    RANGE.setdefault(v.id, (P_(lo), P_(hi)))
    return msum([(v, P_(lo), P_(hi))], P_(body))


def msum(bs, body):
    """sum of body over all binders (list of (var, lo, hi), later ones may depend on earlier ones)"""
    if not bs:
        return body
    r = ZERO
    for m, c in body.d.items():
        r = r + _sum_mono(list(bs), dict(m)).scale(c)
    return r


def _solve_eq(p, v):
    """solve p == 0 for the integer variable v: P or None"""
    cv = None
    rest = {}
    for m, c in p.d.items():
        dm = dict(m)
        if v in dm:
            if len(m) == 1 and dm[v] == 1:
                cv = c
            else:
                return None
        else:
            rest[m] = c
            for a, _ in m:
                if v in _atoms[a].fv:
                    return None
    if cv is None:
        return None
    e = P(rest).scale(-1 / cv)
    if not e.is_int():
        return None
    return e


def _sum_mono(bs, m):
    """sum over binders bs of the monomial m (dict). returns P"""
    ids = {v.id for v, _, _ in bs}
    for v, lo, hi in bs:
        n = hi - lo
        if n.is_const() and n.const() <= 1:
            if n.const() <= 0:
                return ZERO
            mp = {v.id: lo}
            return msum([(w, subs(l, mp), subs(h_, mp)) for w, l, h_ in bs if w is not v], subs(mono_poly(m), mp))
    # flatten nested sums that depend on the binders
    for a in list(m):
        A = _atoms[a]
        if A.kind == 'sum' and not A.fv.isdisjoint(ids):
            e = m[a]
            if not (isinstance(e, int) and e > 0):
                continue
            del m[a]
            acc = mono_poly(dict(m)) if m else ONE
            nb = list(bs)
            for _ in range(e):
                rs, body = open_sum(A)
                nb += rs
                acc = acc * mono_poly(dict(body))
            return msum(nb, acc)
    # delta elimination
    for a in list(m):
        A = _atoms[a]
        if A.kind == 'ind' and A.data[0] == 'eq' and not A.fv.isdisjoint(ids):
            for v, lo, hi in bs:
                if v.id in A.fv:
                    e = _solve_eq(A.data[1], v.id)
                    if e is not None:
                        return _eliminate(bs, m, a, v, lo, hi, e)
    # range restriction
    for a in list(m):
        A = _atoms[a]
        if A.kind == 'ind' and A.data[0] == 'ge' and not A.fv.isdisjoint(ids):
            r = _restrict(bs, m, a)
            if r is not None:
                return r
    out = None
    # opposite range bound (1 - [..]) has been expanded already: sum over [..] only
    # unneeded binders
    for i, (v, lo, hi) in enumerate(bs):
        used = any(v.id in _atoms[a].fv for a in m) or any(
            v.id in l.fv or v.id in h_.fv for w, l, h_ in bs if w is not v)
        if not used:
            nb = bs[:i] + bs[i + 1:]
            cnt = _count(lo, hi)
            return msum(nb, cnt * mono_poly(dict(m)))
        own = [a for a in m if v.id in _atoms[a].fv]
        if own == [v.id] and isinstance(m[v.id], int) and m[v.id] > 0 and not any(
                v.id in l.fv or v.id in h_.fv for w, l, h_ in bs if w is not v):
            f = _faulhaber(m[v.id], lo, hi)
            if f is not None:
                mm = dict(m)
                del mm[v.id]
                nb = bs[:i] + bs[i + 1:]
                return msum(nb, f * mono_poly(mm))
    # split into connected components
    return _components(bs, m)


def _count(lo, hi):
    n = hi - lo
    if nonneg(n):
        return n
    g = ind_ge(n)
    return g * n


def _faulhaber(k, lo, hi):
    if k > 6:
        return None
    if not nonneg(hi - lo):
        return None
    def S(n):   # sum_{i=0}^{n-1} i^k
        B = [Fr(1), Fr(-1, 2), Fr(1, 6), Fr(0), Fr(-1, 30), Fr(0), Fr(1, 42)]
        r = ZERO
        for j in range(k + 1):
            r = r + n.pow(k + 1 - j).scale(Fr(comb(k + 1, j)) * B[j])
        return r.scale(Fr(1, k + 1))
    return S(hi) - S(lo)


def _eliminate(bs, m, a, v, lo, hi, e):
    mp = {v.id: e}
    mm = {x: k for x, k in m.items() if x != a}
    body = subs(mono_poly(mm), mp) if mm else ONE
    nb = [(w, subs(l, mp), subs(h_, mp)) for w, l, h_ in bs if w is not v]
    g = bracket_ge(e - lo) * bracket_ge(hi - 1 - e)
    # the binder's range may depend on other binders: the brackets stay inside
    return msum(nb, body * g)


def bracket_ge(p):
    """[p>=0], resolved by the prover if possible"""
    g = ind_ge(p)
    if g.is_const():
        return g
    k = ORACLE.known_poly(g) if hasattr(ORACLE, 'known_poly') else None
    return g if k is None else (ONE if k else ZERO)


def _restrict(bs, m, a):
    A = _atoms[a]
    p = A.data[1]
    if not p.is_int():
        return None
    for i, (v, lo, hi) in enumerate(bs):
        c = p.d.get(((v.id, 1),))
        if c is None or abs(c) != 1:
            continue
        if any(v.id in dict(mm) and mm != ((v.id, 1),) for mm in p.d):
            continue
        rest = p - P({((v.id, 1),): c})
        if v.id in rest.fv:
            continue
        # other binders inside rest are fine only if they come earlier
        later = {w.id for w, _, _ in bs[i + 1:]}
        if not rest.fv.isdisjoint(later):
            continue
        mm = {x: k for x, k in m.items() if x != a}
        ge = getattr(ORACLE, 'entails_ge', None)
        if ge is None:
            return None
        if c == 1:       # v >= -rest
            b = -rest
            if ge(lo - b):
                nlo, nhi = lo, hi
            elif ge(b - lo) and ge(hi - b):
                nlo, nhi = b, hi
            elif ge(b - hi):
                return ZERO
            else:
                continue
        else:            # v <= rest
            b = rest + 1
            if ge(b - hi):
                nlo, nhi = lo, hi
            elif ge(hi - b) and ge(b - lo):
                nlo, nhi = lo, b
            elif ge(lo - b):
                return ZERO
            else:
                continue
        nb = list(bs)
        w = fresh('s')
        RANGE[w.id] = (nlo, nhi)
        mp = {v.id: P_(w)}
        nb = [(w, nlo, nhi) if x is v else (x, subs(l, mp), subs(h_, mp)) for x, l, h_ in bs]
        return msum(nb, subs(mono_poly(mm), mp))
    return None


def _components(bs, m):
    ids = [v.id for v, _, _ in bs]
    idset = set(ids)
    parent = {i: i for i in ids}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    free = {}
    dep = {}
    for a, e in m.items():
        t = [x for x in _atoms[a].fv if x in idset]
        if not t:
            free[a] = e
        else:
            dep[a] = (e, t)
            for x in t[1:]:
                parent[find(x)] = find(t[0])
    for v, lo, hi in bs:
        for x in (lo.fv | hi.fv):
            if x in idset:
                parent[find(x)] = find(v.id)
    groups = {}
    for b in bs:
        groups.setdefault(find(b[0].id), []).append(b)
    r = mono_poly(free) if free else ONE
    if len(groups) > 1:
        for g, gb in groups.items():
            gm = {a: e for a, (e, t) in dep.items() if find(t[0]) == g}
            r = r * _sum_mono(gb, gm)
        return r
    gm = {a: e for a, (e, t) in dep.items()}
    for rule in SUM_RULES:
        q = rule(bs, gm)
        if q is not None:
            return r * q
    return r * _close(bs, gm)


def _close(bs, gm):
    """canonical sum atom"""
    h = 1 + max([_atoms[a].h for a in gm] + [x.h for _, lo, hi in bs for x in (lo, hi)], default=0)
    n = len(bs)
    best = None
    perms = permutations(range(n)) if n <= 4 else [_heur_order(bs, gm)]
    for perm in perms:
        mp = {bs[j][0].id: P_(bv(h + i)) for i, j in enumerate(perm)}
        keys = frozenset(mp)
        cache = {}
        d = {}
        okp = True
        coef = Fr(1)
        for a, e in gm.items():
            if _atoms[a].kind == 'pw' and e != 1:
                q, e = pw_subst(_atoms[a], e, lambda q: _subs(q, mp, keys, cache)), 1
            else:
                q = _subs_atom(_atoms[a], mp, keys, cache)
            s = q.single()
            if s is None and e != 1 or s is not None and s[0] != 1:
                # renaming changed the canonical orientation of a factor: keep the coefficient outside
                s = q.pow(e).single()
                if s is not None:
                    coef *= s[0]
                    for b, k in s[1]:
                        d[b] = d.get(b, 0) + k
                    continue
            if s is None:
                okp = False
                break
            for b, k in s[1]:
                d[b] = d.get(b, 0) + k * e
        if not okp:
            continue
        d = {b: k for b, k in d.items() if k != 0}
        rng = tuple((_subs(bs[j][1], mp, keys, cache), _subs(bs[j][2], mp, keys, cache)) for j in perm)
        key = (tuple(sorted(d.items())), tuple((tuple(sorted(lo.d.items())), tuple(sorted(hi.d.items()))) for lo, hi in rng))
        if best is None or key < best[0]:
            best = (key, rng, tuple(sorted(d.items())), coef)
    if best is None and not KEEP[0]:
        KEEP[0] = True
        try:
            return _close(bs, gm)
        finally:
            KEEP[0] = False
    if best is None:
        raise Unsupported('sum canonicalisation: ' + str([(str(P_(_atoms[a])), str(_subs_atom(_atoms[a], mp, keys, {}))) for a in gm]))
    _, rng, mono, coef = best
    fv = set()
    sort = 'I'
    nn = True
    for a, e in mono:
        A = _atoms[a]
        fv |= A.fv
        if not A.nn and not (A.sort != 'C' and isinstance(e, int) and e % 2 == 0):
            nn = False
        if SORTORD[A.sort] > SORTORD[sort]:
            sort = A.sort
        if (not isinstance(e, int) or e < 0) and sort == 'I':
            sort = 'R'
    if not nn and sort == 'C':
        nn = _abs2_form(P({mono: Fr(1)}))
    for lo, hi in rng:
        fv |= lo.fv | hi.fv
    fv -= {bv(h + i).id for i in range(n)}
    A = _mk('sum', (h, rng, mono), sort, nn, frozenset(fv), h + n - 1)
    if sort == 'C' and nn:
        A.sort = 'R'
    return P_(A).scale(coef)


def _heur_order(bs, gm):
    def sig(i):
        v = bs[i][0].id
        return sorted((_atoms[a].kind, str(_atoms[a].data)[:20], str(e)) for a, e in gm.items() if v in _atoms[a].fv)
    return tuple(sorted(range(len(bs)), key=sig))


def mk_prod(v, lo, hi, body):
    """finite product over v in [lo, hi)"""
    lo, hi, body = P_(lo), P_(hi), P_(body)
    RANGE.setdefault(v.id, (lo, hi))
    if body == ONE:
        return ONE
    n = hi - lo
    if n.is_const() and n.const() <= 12:
        r = ONE
        for i in range(int(n.const())):
            r = r * subs(body, {v.id: lo + i})
        return r
    if v.id not in body.fv:
        return power(body, n)
    h = 1 + max(body.h, lo.h, hi.h)
    b = subs(body, {v.id: P_(bv(h))})
    sort = 'I' if b.is_int() else ('R' if b.is_real() else 'C')
    fv = (b.fv | lo.fv | hi.fv) - {bv(h).id}
    return P_(_mk('prod', (h, lo, hi, b), sort, syn_nonneg(b), frozenset(fv), h))


# ---------------------------------------------------------------- printing
def show_atom(A):
    k = A.kind
    if k == 'var':
        return A.data[0]
    if k == 'bv':
        return f'b{A.data}'
    if k == 'I':
        return 'i'
    if k == 'pi':
        return 'pi'
    if k == 'prime':
        return f'{A.data}'
    if k == 'app':
        return f"{A.data[0]}({', '.join(str(x) for x in A.data[1])})"
    if k == 'conj':
        return f'conj({_atoms[A.data]})'
    if k == 'ind':
        return f"[{A.data[1]}{'==0' if A.data[0] == 'eq' else '>=0'}]"
    if k == 'pa':
        return f'({A.data})'
    if k == 'pw':
        b, m = A.data
        return f"{'e^i' if b == 'expi' else b}^({P({m: Fr(1)})})"
    if k == 'sum':
        h, rng, mono = A.data
        return 'Sum{' + ', '.join(f'b{h+i} in [{lo}, {hi})' for i, (lo, hi) in enumerate(rng)) + '}(' + str(P({mono: Fr(1)})) + ')'
    if k == 'prod':
        h, lo, hi, b = A.data
        return f'Prod{{b{h} in [{lo}, {hi})}}({b})'
    return f'{k}:{A.data}'


def show(p, limit=2000):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (len(t[0]), t[0])):
        fs = []
        for a, e in m:
            s = show_atom(_atoms[a])
            fs.append(s if e == 1 else f'{s}^{e}' if not isinstance(e, Fr) else f'{s}^({e})')
        t = '*'.join(fs)
        if not t:
            t = str(c)
        elif c == -1:
            t = '-' + t
        elif c != 1:
            t = f'{c}*{t}'
        out.append(t)
    r = ' + '.join(out).replace('+ -', '- ')
    return r if len(r) <= limit else r[:limit] + '...'
