"""Contracts of the external functions (Python builtins, numpy, scipy) the code under verification calls.

Each handler states, in terms of the data model of sym.py, what the call returns.  Functions that are defined by a formula
(sum, matmul, stack, ...) are given by that formula; functions that are specified by a law (inverse, pseudo-inverse,
eigendecomposition, transforms, ...) return opaque terms, and the law is available to the proof through the call record.
"""
import builtins
import functools
import itertools
import math
import operator
import numpy as np
import scipy
import scipy.special
import scipy.linalg
from fractions import Fraction as Fr
from . import terms as T
from . import core as C
from . import sym as Y
from .terms import P, P_, ZERO, ONE, Unsupported
from .sym import S, Arr, SList, SIter, Masked, Where, lift, mk, is_scalar, has_sym, as_arr, eapply, emap, jsort
from .interp import handles, HANDLERS, Interp, Closure

# ---------------------------------------------------------------- builtins


@handles(len)
def _len(I, x):
    if isinstance(x, (Arr, SList, Y.SSel, Y.FluxList)):
        return x.length()
    if isinstance(x, S):
        raise TypeError('object of type float has no len()')
    if isinstance(x, Masked):
        return x.size
    if isinstance(x, SIter):
        return mk(x.hi - x.lo)
    if I.is_pkg(type(x)) and hasattr(type(x), '__len__'):
        return I.call(type(x).__len__, (x,))
    return len(x)


@handles(range)
def _range(I, *a):
    ps = []
    for x in a:
        p = lift(x)
        if not p.is_int():
            raise TypeError("'float' object cannot be interpreted as an integer")
        ps.append(p)
    lo, hi, st = (ZERO, ps[0], ONE) if len(ps) == 1 else (ps[0], ps[1], ps[2] if len(ps) > 2 else ONE)
    if all(p.is_const() for p in (lo, hi, st)):
        return range(int(lo.const()), int(hi.const()), int(st.const()))
    if not st.is_const():
        raise Unsupported('symbolic step')
    st = int(st.const())
    n = hi - lo if st > 0 else lo - hi
    if abs(st) != 1:
        n = Y.idiv(n + (abs(st) - 1), P_(abs(st)))
    if n.is_const() and n.const() <= 0:
        return range(0)
    if not C.CTX.entails_ge(n):
        if not C.CTX.lenient and not C.CTX.decide_poly(T.ind_ge(n)):
            return range(0)
    if n.is_const():
        return [S(lo + k * st) for k in range(int(n.const()))]
    if st == 1:
        return SIter(lo, hi, lambda k: S(k))
    return SIter(ZERO, n, lambda k: S(lo + k.scale(st)))


@handles(enumerate)
def _enumerate(I, x, start=0):
    s = I.siter(x)
    if s is None:
        return [(i + start, v) for i, v in enumerate(I.iterate(x))]
    return SIter(s.lo, s.hi, lambda k: (S(k - s.lo + start), s.f(k)))


class Repeat:
    """itertools.repeat without end"""

    def __init__(self, x):
        self.x = x


@handles(itertools.repeat)
def _endless(I, x, times=None):
    if times is None:
        return Repeat(x)
    n = lift(times)
    return [x] * int(n.const()) if n.is_const() else SIter(ZERO, n, lambda k: x)


@handles(zip)
def _zip(I, *xs):
    if any(isinstance(x, Repeat) for x in xs):
        rest = [x for x in xs if not isinstance(x, Repeat)]
        z = _zip(I, *rest)

        def put(t):
            t = list(t)
            return tuple(x.x if isinstance(x, Repeat) else t.pop(0) for x in xs)
        if not rest:
            raise Unsupported('zip without end')
        return SIter(z.lo, z.hi, lambda k: put(z.f(k))) if isinstance(z, SIter) else [put(t) for t in z]
    ss = [I.siter(x) for x in xs]
    if all(s is None for s in ss):
        return list(zip(*[I.iterate(x) for x in xs]))
    if any(s is None for s in ss):
        raise Unsupported('zip of symbolic and concrete lengths')
    n = ss[0].hi - ss[0].lo
    for s in ss[1:]:
        if not Y.same_dim(Y.dim(n), Y.dim(s.hi - s.lo)):
            raise Unsupported('zip of different symbolic lengths')
    return SIter(ZERO, n, lambda k: tuple(s.f(s.lo + k) for s in ss))


@handles(map)
def _map(I, f, *xs):
    if len(xs) == 1:
        s = I.siter(xs[0]) or I.long_iter(xs[0])
        if s is not None:
            return SIter(s.lo, s.hi, lambda k: I.call(f, (s.f(k),)))
    return [I.call(f, t) for t in zip(*[I.iterate(x) for x in xs])]


@handles(list, tuple)
def _list(I, x=()):
    s = I.siter(x)
    if s is not None:
        return s.as_list()
    return list(I.iterate(x))


HANDLERS[id(tuple)] = lambda I, x=(): tuple(I.iterate(x)) if I.siter(x) is None else I.siter(x).as_list()


@handles(reversed)
def _reversed(I, x):
    s = I.siter(x)
    if s is not None:
        return SIter(s.lo, s.hi, lambda k: s.f(s.lo + s.hi - 1 - k))
    return list(I.iterate(x))[::-1]


@handles(sorted)
def _sorted(I, x, **k):
    x = list(I.iterate(x))
    if has_sym(x):
        raise Unsupported('sorted')
    return sorted(x, **k)


@handles(int, np.int64, np.int32, np.intp)
def _int(I, x=0, *a):
    if isinstance(x, str):
        return int(x, *a)
    return mk(T.trunc(lift(x)))


@handles(float, np.float64, np.float32)
def _float(I, x=0.):
    if isinstance(x, str):
        return float(x)
    if isinstance(x, Arr) and x.ndim:
        return x.astype(float)
    p = lift(x)
    if not p.is_real():
        raise TypeError("can't convert complex to float")
    return S(p)


@handles(complex, np.complex128)
def _complex(I, a=0, b=0):
    return S(lift(a) + lift(b) * T.I)


@handles(bool, np.bool_)
def _bool(I, x=False):
    return I.truth(x)


@handles(abs, np.abs, np.absolute, np.fabs)
def _abs(I, x):
    if isinstance(x, (list, tuple)):
        x = as_arr(x)
    so = x.sort if isinstance(x, (Arr, Masked)) else None
    return emap(T.absv, x, sort='R' if so == 'C' else so)


@handles(round, np.round, np.rint, np.around)
def _round(I, x, decimals=0, *a):
    if decimals:
        raise Unsupported('round to decimals')
    return emap(Y.rint, x, sort=None if not isinstance(x, Arr) else ('I' if x.sort == 'I' else 'R'))


@handles(min)
def _min(I, *a, **k):
    return _pmm(I, Y.pmin, a, k)


@handles(max)
def _max(I, *a, **k):
    return _pmm(I, Y.pmax, a, k)


def _pmm(I, f, a, k):
    if k:
        raise Unsupported('min/max with key')
    xs = list(I.iterate(a[0])) if len(a) == 1 else list(a)
    if not has_sym(xs) and all(isinstance(x, int) for x in xs):
        return (min if f is Y.pmin else max)(xs)
    return mk(functools.reduce(f, [lift(x) for x in xs]))


@handles(sum)
def _sum(I, x, start=0):
    s = I.siter(x)
    if s is not None:
        a = s.as_list().stack()
        return Y.arith('+', Y.reduce_sum(a, 0), start)
    r = start
    for v in I.iterate(x):
        r = I.binop('+', r, v)
    return r


@handles(any)
def _any(I, x):
    s = I.siter(x)
    if s is not None:
        return Y.reduce_any(s.as_list().stack(), None)
    for v in I.iterate(x):
        if I.truth(v):
            return True
    return False


@handles(all)
def _all(I, x):
    s = I.siter(x)
    if s is not None:
        return Y.reduce_all(s.as_list().stack(), None)
    for v in I.iterate(x):
        if not I.truth(v):
            return False
    return True


@handles(isinstance)
def _isinstance(I, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, (Arr, Masked)):
        return any(c in (np.ndarray, object) for c in ts)
    if isinstance(x, S):
        if x.b:
            return any(c in (bool, np.bool_, object) for c in ts)
        if x.p.is_int():
            return any(c in (int, np.integer, object) or c.__name__ in ('Integral', 'Number', 'Real') for c in ts)
        if x.p.is_real():
            return any(c in (float, np.floating, np.float64, object) or c.__name__ in ('Number', 'Real') for c in ts)
        return any(c in (complex, np.complexfloating, object) for c in ts)
    if isinstance(x, SList):
        return any(c in (list, object) for c in ts)
    return isinstance(x, t)


@handles(type)
def _type(I, x):
    if isinstance(x, Arr):
        return np.ndarray
    if isinstance(x, SList):
        return list
    if is_scalar(x) and isinstance(x, S):
        return int if x.p.is_int() else float if x.p.is_real() else complex
    return type(x)


@handles(callable)
def _callable(I, x):
    return callable(x)


@handles(hasattr)
def _hasattr(I, x, n):
    if isinstance(x, S):
        return n in ('real', 'imag', 'shape', 'ndim', 'dtype')
    return hasattr(x, n)


@handles(getattr)
def _getattr(I, x, n, *d):
    try:
        return I.getattr(x, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@handles(setattr)
def _setattr(I, x, n, v):
    I.setattr(x, n, v)


@handles(print)
def _print(I, *a, **k):
    return None


@handles(str, repr)
def _str(I, *a):
    return str(*a)


@handles(divmod)
def _divmod(I, a, b):
    return I.binop('//', a, b), I.binop('%', a, b)


@handles(pow, np.power)
def _powf(I, a, b):
    return I.binop('**', a, b)


@handles(dict)
def _dict(I, *a, **k):
    return dict(*a, **k)


@handles(slice)
def _slice(I, *a):
    return slice(*a)


@handles(iter)
def _iter(I, x):
    return x


@handles(math.sqrt)
def _msqrt(I, x):
    return S(psqrt(lift(x)))


@handles(math.factorial, scipy.special.factorial)
def _fact(I, n, exact=False):
    if isinstance(n, Arr):
        return emap(fact, n, sort='R')
    if isinstance(n, (list, tuple, np.ndarray)):
        return emap(fact, as_arr(n), sort='R')
    return S(fact(lift(n)))


def fact(p):
    if p.is_const():
        return P_(math.factorial(int(p.const())))
    k = p.d.get((), Fr(0))
    if k and k.denominator == 1 and abs(k) <= 6 and C.CTX is not None and C.CTX.entails_ge(p if k < 0 else p - k):
        k = int(k)
        b = p - k
        r = T.app('fact', b, sort='R', nn=True)
        for j in range(1, k + 1):
            r = r * (b + j)
        for j in range(0, -k):
            r = T.lift_args(lambda x: r * x.pow(-1), [b - j])
        return r
    return T.app('fact', p, sort='R', nn=True)


@handles(math.floor, np.floor)
def _floor(I, x):
    return emap(T.floor, x, sort='R' if isinstance(x, Arr) else None)


@handles(math.ceil, np.ceil)
def _ceil(I, x):
    return emap(T.ceil, x, sort='R' if isinstance(x, Arr) else None)


# ---------------------------------------------------------------- constructors
def dims(s):
    if is_scalar(s):
        return (Y.dim(lift(s)),)
    return tuple(Y.dim(lift(x)) for x in s)


def filled(shape, p, sort):
    return Arr(dims(shape), lambda i: p, sort)


def sod(dtype, default):
    if dtype is None:
        return default
    return Y.sort_of_dtype(dtype)


@handles(np.zeros, np.empty)
def _zeros(I, shape, dtype=None, order='C'):
    return filled(shape, ZERO, sod(dtype, 'R'))


@handles(np.ones)
def _ones(I, shape, dtype=None):
    return filled(shape, ONE, sod(dtype, 'R'))


@handles(np.full)
def _full(I, shape, v, dtype=None):
    p = lift(v)
    return filled(shape, p, sod(dtype, Y.psort(p) if not isinstance(v, float) else 'R'))


def _like(p):
    def h(I, a, dtype=None, **k):
        nok(k)
        a = as_arr(a)
        return Arr(a.shape_, lambda i: p, sod(dtype, a.sort))
    return h


handles(np.zeros_like, np.empty_like)(_like(ZERO))
handles(np.ones_like)(_like(ONE))


@handles(np.full_like)
def _full_like(I, a, v, dtype=None):
    a = as_arr(a)
    s = sod(dtype, a.sort)
    p = Y.cast(lift(v), s)
    return Arr(a.shape_, lambda i: p, s)


@handles(np.eye, np.identity)
def _eye(I, n, m=None, k=0, dtype=None):
    m = n if m is None else m
    return Arr((Y.dim(lift(n)), Y.dim(lift(m))), lambda i: T.ind_eq(i[0] + k - i[1]), sod(dtype, 'R'))


@handles(np.arange)
def _arange(I, *a, dtype=None):
    ps = [lift(x) for x in a]
    lo, hi, st = (ZERO, ps[0], ONE) if len(ps) == 1 else (ps[0], ps[1], ps[2] if len(ps) > 2 else ONE)
    n = hi - lo
    if st != ONE:
        n = T.ceil(n / st)
    else:
        n = T.ceil(n)
    if n.is_const():
        n = P_(max(Fr(0), n.const()))
    elif not C.CTX.entails_ge(n) and not C.CTX.lenient and not C.CTX.decide_poly(T.ind_ge(n)):
        n = ZERO
    so = 'I' if all(p.is_int() for p in (lo, hi, st)) and not any(isinstance(x, float) for x in a) else 'R'
    return Arr((n,), lambda i: lo + i[0] * st, sod(dtype, so))


@handles(np.linspace)
def _linspace(I, a, b, num=50, endpoint=True, retstep=False, **k):
    if k:
        raise Unsupported('linspace options')
    if retstep:
        d = lift(num) - 1 if endpoint else lift(num)
        if not C.CTX.entails_ge(d - 1):
            raise Unsupported('step of a single point')
        return _linspace(I, a, b, num, endpoint), S((lift(b) - lift(a)) * d.pow(-1))
    a, b, n = lift(a), lift(b), lift(num)
    d = n - 1 if endpoint else n
    if n == ONE and endpoint:
        return Arr((1,), lambda i: a, 'R')
    return Arr((n,), lambda i: b if (i[0] - d).is_zero() else a + i[0] * (b - a) * d.pow(-1) if not d.is_zero() else a, 'R')


@handles(np.array)
def _array(I, x, dtype=None, copy=True, ndmin=0, **k):
    nok(k)
    if isinstance(x, Y.SSel):
        x = x.stack()
    if isinstance(x, Masked) and ndmin <= len(x.shape_):
        return x.astype(dtype) if dtype is not None and sod(dtype, x.sort) != x.sort else x
    a = as_arr(x)
    s = sod(dtype, a.sort)
    rd = a.reader()
    r = Arr(a.shape_, (lambda i: Y.cast(rd(i), s)) if s != a.sort else rd, s)
    while r.ndim < ndmin:
        r = Y.expand_dims(r, 0)
    return r


@handles(np.asarray, np.asanyarray, np.ascontiguousarray, np.atleast_1d)
def _asarray(I, x, dtype=None, **k):
    nok(k)
    if x is None:
        return np.asarray(None)
    if isinstance(x, Y.SSel):
        x = x.stack()
    if isinstance(x, Masked) and sod(dtype, x.sort) == x.sort:
        return x
    a = as_arr(x)
    s = sod(dtype, a.sort)
    return a if s == a.sort else a.astype(dtype)


def _atleast_1d(I, *xs):
    r = []
    for x in xs:
        a = as_arr(x)
        r.append(Y.reshape(a, (1,)) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else r


HANDLERS[id(np.atleast_1d)] = _atleast_1d


@handles(np.atleast_2d)
def _atleast_2d(I, *xs):
    r = []
    for x in xs:
        a = as_arr(x)
        if a.ndim == 0:
            a = Y.reshape(a, (1, 1))
        elif a.ndim == 1:
            a = a[None, :]
        r.append(a)
    return r[0] if len(r) == 1 else r


@handles(np.copy)
def _copy(I, x, **k):
    nok(k)
    return as_arr(x).copy()


@handles(np.meshgrid)
def _meshgrid(I, *xs, indexing='xy', **k):
    if k:
        raise Unsupported('meshgrid options')
    a = [as_arr(x) for x in xs]
    if len(a) != 2:
        raise Unsupported('meshgrid')
    r0, r1 = a[0].reader(), a[1].reader()
    n0, n1 = a[0].shape_[0], a[1].shape_[0]
    if indexing == 'xy':
        return [Arr((n1, n0), lambda i: r0((i[1],)), a[0].sort), Arr((n1, n0), lambda i: r1((i[0],)), a[1].sort)]
    return [Arr((n0, n1), lambda i: r0((i[0],)), a[0].sort), Arr((n0, n1), lambda i: r1((i[1],)), a[1].sort)]


# ---------------------------------------------------------------- elementwise
def psqrt(p):
    def f(x):
        if x.is_const() and x.const() < 0:
            raise Unsupported('square root of a negative number')
        return x.pow(Fr(1, 2))
    return T.lift_args(f, [p])


def _float_sort(x):
    if isinstance(x, (Arr, Masked)):
        return 'C' if x.sort == 'C' else 'R'
    return None


def elementwise(fn, *nps, csort=None):
    def h(I, x, *a, **k):
        if k or a:
            raise Unsupported('ufunc arguments')
        if isinstance(x, (list, tuple, np.ndarray, SList)):
            x = as_arr(x)
        return emap(fn, x, sort=csort or _float_sort(x))
    handles(*nps)(h)


def plog(name, base):
    def f(p):
        if p.is_const() and p.const() == 1:
            return ZERO
        r = log_terms(p)
        return r if base is None else r * log_terms(P_(base)).pow(-1)
    return f


def log_terms(p):
    """natural logarithm, expanded over positive factors"""
    def f(p):
        s = p.single()
        if s:
            c, m = s
            if c > 0:
                r = ZERO
                rest = {}
                for a, e in m:
                    A = T.atom(a)
                    if A.kind == 'pw' and A.data[0] != 'expi':
                        base, mm = A.data
                        r = r + P({mm: Fr(1)}).scale(e) * log_terms(base)
                    elif A.kind == 'prime':
                        r = r + lg(P_(A)).scale(e)
                    elif A.nn or T.nonneg(P_(A)):
                        r = r + lg(P_(A)).scale(e)
                    else:
                        rest[a] = e
                for q, k in T._factorint(c.numerator).items():
                    r = r + lg(P_(q)).scale(k)
                for q, k in T._factorint(c.denominator).items():
                    r = r - lg(P_(q)).scale(k)
                return r + (lg(T.mono_poly(rest)) if rest else ZERO)
        return lg(p)
    return T.lift_args(f, [p])


def lg(p):
    if p == ONE:
        return ZERO
    if p == P_(5):         # log 10 is the basic constant, so that decimal logarithms are single terms
        return T.app('log', P_(10), sort='R') - T.app('log', P_(2), sort='R')
    return T.app('log', p, sort='R')


def pexp(p):
    """exp of a term: imaginary part as expi"""
    re, im = p.re(), p.im()
    r = T.expi(im) if not im.is_zero() else ONE
    if re.is_zero():
        return r
    if re.is_const():
        return r * T.app('exp', re, sort='R', nn=True)
    s = ONE
    for m, c in re.d.items():
        q = P({m: c})
        a = P({m: Fr(1)}).as_atom()
        if a is not None and a.kind == 'app' and a.data[0] == 'log':
            s = s * T.power(a.data[1][0], P_(c))
        else:
            s = s * T.app('exp', q, sort='R', nn=True)
    return r * s


def pacos(p):
    def f(u):
        if u.is_const():
            v = {Fr(1): ZERO, Fr(0): T.PI.scale(Fr(1, 2)), Fr(-1): T.PI}.get(u.const())
            if v is not None:
                return v
        return T.app('acos', u, sort='R', nn=True)
    return T.lift_args(f, [p])


def pasin(p):
    def f(u):
        if u.is_zero():
            return ZERO
        return T.app('asin', u, sort='R')
    return T.lift_args(f, [p])


elementwise(psqrt, np.sqrt)
elementwise(T.sin, np.sin)
elementwise(T.cos, np.cos)
elementwise(lambda p: T.sin(p) / T.cos(p), np.tan)
elementwise(pacos, np.arccos)
elementwise(pasin, np.arcsin)
elementwise(plog('log', None), np.log, math.log)
elementwise(plog('log10', 10), np.log10, math.log10)
elementwise(plog('log2', 2), np.log2)
elementwise(pexp, np.exp)
elementwise(lambda p: T.lift_args(lambda x: ZERO if x.is_zero() else T.app('tanh', x, sort='R'), [p]), np.tanh)
elementwise(lambda p: T.lift_args(lambda x: T.app('sinh', x, sort='R'), [p]), np.sinh)
elementwise(lambda p: T.lift_args(lambda x: T.app('cosh', x, sort='R'), [p]), np.cosh)
elementwise(lambda p: (T.PI.scale(Fr(1, 180)) * p), np.deg2rad, np.radians)
elementwise(lambda p: (p.scale(180) / T.PI), np.rad2deg, np.degrees)
math_map = {math.sin: np.sin, math.cos: np.cos, math.exp: np.exp}
for k_, v_ in math_map.items():
    HANDLERS[id(k_)] = HANDLERS[id(v_)]


@handles(np.square)
def _square(I, x):
    x = as_arr(x) if isinstance(x, (list, tuple, np.ndarray)) else x
    return emap(lambda p: p * p, x)


@handles(np.conj, np.conjugate)
def _conj(I, x):
    return emap(lambda p: p.conj(), x if not isinstance(x, (list, tuple)) else as_arr(x))


@handles(np.real)
def _real(I, x):
    return emap(lambda p: p.re(), x, sort='R' if isinstance(x, Arr) and x.sort == 'C' else None)


@handles(np.imag)
def _imag(I, x):
    return emap(lambda p: p.im(), x, sort='R' if isinstance(x, Arr) else None)


@handles(np.negative)
def _neg(I, x):
    return emap(lambda p: -p, x)


@handles(np.sign)
def _sign(I, x):
    def f(p):
        g, l = T.ind_ge(p - 0), T.ind_ge(-p)
        return (ONE - l) - (ONE - g)
    return emap(f, x)


@handles(np.reciprocal)
def _recip(I, x):
    return I.binop('/', 1, x)


@handles(np.isinf)
def _isinf(I, x):
    # terms denote exact finite numbers wherever their divisors are non-zero (reported as definedness conditions)
    return emap(lambda p: ZERO, x, sort='B')


@handles(np.isnan)
def _isnan(I, x):
    """0/0 is not a number: a term that is a quotient by one integer d is nan iff d and the numerator are zero;
    elsewhere terms denote exact finite numbers (their divisors are reported as definedness conditions)"""
    def f(p):
        ds = {a for m in p.d for a, e in m if e < 0}
        if len(ds) != 1:
            return ZERO
        d = T.atom(ds.pop())
        low = -min(dict(m).get(d.id, 0) for m in p.d)
        q = d.data if d.kind == 'pa' else P_(d)
        if not (isinstance(q, P) and q.is_int()) or low != 1:
            return ZERO
        z = C.CTX.simp(T.ind_eq(q), solve=True)
        if z.is_zero():
            return z
        num = p * P_(d)
        num = P({m: c for m, c in num.d.items() if d.id not in dict(m)})
        return z * T.ind_eq(num)
    return emap(lambda p: T.lift_args(f, [p]), x, sort='B')


@handles(np.isfinite)
def _isfinite(I, x):
    return emap(lambda p: ONE, x, sort='B')


def has_divisor(x):
    if isinstance(x, P):
        return any(e < 0 or has_divisor(T.atom(a)) for m in x.d for a, e in m)
    if isinstance(x, tuple):
        return any(has_divisor(y) for y in x)
    return has_divisor(x.data) if isinstance(x, T.Atom) and not isinstance(x.data, (int, str)) else isinstance(
        x, T.Atom) and isinstance(x.data, int) and has_divisor(T.atom(x.data))


@handles(np.nan_to_num)
def _nan_to_num(I, x, *a, **k):
    if a and a != (True,) or any(q != 'copy' for q in k):
        raise Unsupported('nan_to_num options')
    # quotients may be undefined: a function of the argument; otherwise the argument
    def f(p):
        return T.app('nan_to_num', p, sort='R') if has_divisor(p) else p
    return emap(lambda p: T.lift_args(lambda q: f(q), [p]), x)


def binary(op, *nps):
    def h(I, a, b, **k):
        if k:
            raise Unsupported('ufunc options')
        return I.binop(op, a, b) if op in Y._OPS else Y.cmp(op, a, b)
    handles(*nps)(h)


binary('+', np.add)
binary('-', np.subtract)
binary('*', np.multiply)
binary('/', np.divide, np.true_divide)
binary('//', np.floor_divide)
binary('%', np.mod, np.remainder)
binary('<', np.less)
binary('<=', np.less_equal)
binary('>', np.greater)
binary('>=', np.greater_equal)
binary('==', np.equal)
binary('!=', np.not_equal)
binary('&', np.logical_and)
binary('|', np.logical_or)
for _f, _o in ((operator.add, '+'), (operator.mul, '*'), (operator.sub, '-')):
    binary(_o, _f)


@handles(np.logical_not)
def _lnot(I, x):
    return emap(lambda p: ONE - p, x, sort='B')


def patan2(y, x):
    def f(y, x):
        if y.is_zero() and x.is_const():
            return ZERO if x.const() >= 0 else T.PI
        return T.app('atan2', y, x, sort='R')
    return T.lift_args(f, [y, x])


@handles(np.arctan2, math.atan2)
def _atan2(I, y, x):
    return eapply(patan2, y, x, sort='R' if any(isinstance(v, Arr) for v in (x, y)) else None)


@handles(np.angle)
def _angle(I, z):
    return emap(lambda p: patan2(p.im(), p.re()), z, sort='R')


def wrapcorr(d):
    """multiple of 2 pi that brings a phase step into [-pi, pi]"""
    return T.app('wrapcorr', d, sort='R')


@handles(np.unwrap)
def _unwrap(I, x, discont=None, axis=-1, *, period=None):
    if discont is not None or period is not None:
        raise Unsupported('unwrap with options')
    x = as_arr(x)
    ax = axis % x.ndim
    rd = x.reader()

    def fn(i):
        at = lambda j: rd(i[:ax] + (j,) + i[ax + 1:])
        return rd(i) + Y.tsum(0, i[ax], lambda j: T.lift_args(wrapcorr, [at(j + 1) - at(j)]))
    return Arr(x.shape_, fn, 'R')


@handles(np.hypot)
def _hypot(I, a, b):
    return eapply(lambda x, y: psqrt(x * x + y * y), a, b)


@handles(np.maximum)
def _maximum(I, a, b):
    return eapply(Y.pmax, a, b)


@handles(np.minimum)
def _minimum(I, a, b):
    return eapply(Y.pmin, a, b)


@handles(np.clip)
def _clip(I, x, lo=None, hi=None, out=None, **k):
    nok(k, 'a_min', 'a_max')
    lo = k.get('a_min', lo)
    hi = k.get('a_max', hi)
    r = x
    if lo is not None:
        r = eapply(Y.pmax, r, lo)
    if hi is not None:
        r = eapply(Y.pmin, r, hi)
    if out is not None:
        Y.setitem(out, Ellipsis, r)
        return out
    return r


@handles(np.where)
def _where(I, c, *xy):
    if not xy:
        c = as_arr(c)
        if c.sort != 'B':
            c = emap(lambda p: ONE - T.ind_eq(p), c, sort='B')
        if all(isinstance(d, int) for d in c.shape_):
            vals = [c.at((P_(i),)) for i in range(c.shape_[0])] if c.ndim == 1 else None
            if vals is not None and all(C.CTX.simp(v, solve=True).is_const() for v in vals):
                idx = [i for i, v in enumerate(vals) if C.CTX.simp(v, solve=True) == ONE]
                return (as_arr(np.array(idx, dtype=int)),)
        return (Where(c.shape_, c.reader()),) if c.ndim == 1 else Where(c.shape_, c.reader())
    x, y = xy

    def f(g, a, b):
        if not g.is_const():
            g = C.CTX.simp(g, solve=True)
        if g == ONE:
            return a
        if g.is_zero():
            return b
        return g * a + (ONE - g) * b
    ss = [as_arr(v).sort for v in (x, y)]
    c = as_arr(c)
    if c.sort != 'B':
        c = emap(lambda p: ONE - T.ind_eq(p), c, sort='B')
    return eapply(f, c, x, y, sort=jsort(*ss))


@handles(np.nonzero)
def _nonzero(I, c):
    return _where(I, c)


# ---------------------------------------------------------------- reductions
def _red(fn, *nps):
    def h(I, a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if k or out is not None or dtype is not None and sod(dtype, 'R') not in ('R', 'C'):
            raise Unsupported('reduction options')
        if isinstance(a, Masked):
            return fn(a, axis, keepdims)
        return fn(as_arr(a), axis, keepdims)
    handles(*nps)(h)


_red(Y.reduce_sum, np.sum)
_red(Y.reduce_mean, np.mean, np.average)
_red(Y.reduce_prod, np.prod)


def _var(a, axis, keepdims):
    m = Y.reduce_mean(a, axis, True)
    d = as_arr(a) - m
    return Y.reduce_mean(d * (d.conj() if d.sort == 'C' else d), axis, keepdims)


_red(_var, np.var)
_red(lambda a, ax, kd: eapply(psqrt, _var(a, ax, kd)), np.std)
_red(Y.reduce_any, np.any)
_red(Y.reduce_all, np.all)
_red(lambda a, ax, kd: Y.extremum('max', a, ax, kd), np.max, np.amax)
_red(lambda a, ax, kd: Y.extremum('min', a, ax, kd), np.min, np.amin)
_red(lambda a, ax, kd: Y.argext('max', a, ax), np.argmax)
_red(lambda a, ax, kd: Y.argext('min', a, ax), np.argmin)


@handles(np.cumsum)
def _cumsum(I, a, axis=None):
    a = as_arr(a)
    if a.ndim != 1 and axis is None:
        a = a.ravel()
    ax = (axis or 0) % a.ndim
    rd = a.reader()
    return Arr(a.shape_, lambda idx: Y.tsum(0, idx[ax] + 1, lambda k: rd(idx[:ax] + (k,) + idx[ax + 1:])), jsort('I', a.sort))


@handles(np.diff)
def _diff(I, a, n=1, axis=-1):
    a = as_arr(a)
    for _ in range(n):
        ax = axis % a.ndim
        rd = a.reader()
        sh = list(a.shape_)
        sh[ax] = Y.dim(P_(sh[ax]) - 1)
        a = Arr(sh, lambda i, rd=rd: rd(i[:ax] + (i[ax] + 1,) + i[ax + 1:]) - rd(i), a.sort)
    return a


@handles(np.trapz)
def _trapz(I, y, x=None, dx=1.0, axis=-1):
    if x is not None or dx != 1.0:
        raise Unsupported('trapz options')
    y = as_arr(y)
    rd = y.reader()
    ax = axis % y.ndim
    if y.ndim != 1:
        raise Unsupported('trapz')
    n = P_(y.shape_[0])
    return S(Y.tsum(0, n - 1, lambda k: (rd((k,)) + rd((k + 1,))).scale(Fr(1, 2))))


@handles(np.count_nonzero)
def _cnz(I, a, axis=None):
    a = as_arr(a)
    return Y.reduce_sum(emap(lambda p: Y.tobool(p, a.sort), a, sort='I'), axis)


@handles(np.trace)
def _trace(I, a):
    a = as_arr(a)
    rd = a.reader()
    return S(Y.tsum(0, P_(a.shape_[0]), lambda k: rd((k, k))))


@handles(np.linalg.norm)
def _norm(I, x, ord=None, axis=None, keepdims=False):
    x = as_arr(x)
    if ord not in (None, 2) or (x.ndim == 2 and axis is None and ord == 2):
        if ord == 1 and (axis is not None or x.ndim == 1):
            return Y.reduce_with(x, axis if axis is not None else 0, keepdims, 'R', lambda d, g: Y.nsum(tuple(d), lambda i: T.absv(g(i))))
        if not (isinstance(ord, int) and (axis is not None or x.ndim == 1) and ord > 0):
            raise Unsupported('norm order')
        return Y.reduce_with(x, axis if axis is not None else 0, keepdims, 'R',
                             lambda d, g: Y.nsum(tuple(d), lambda i: T.absv(g(i)).pow(ord)).pow(Fr(1, ord)))
    return Y.reduce_with(x, axis, keepdims, 'R', lambda d, g: psqrt(Y.nsum(tuple(d), lambda i: g(i) * g(i).conj())))


# ---------------------------------------------------------------- shape
handles(np.squeeze)(lambda I, a, axis=None: Y.squeeze(as_arr(a), axis) if not isinstance(a, S) else as_arr(a))
handles(np.transpose)(lambda I, a, axes=None: Y.transpose(a, axes))
handles(np.expand_dims)(lambda I, a, axis: Y.expand_dims(a, axis))
handles(np.reshape)(lambda I, a, s, order='C': (Y._c_order(order), Y.reshape(a, s if isinstance(s, (tuple, list)) else (s,)))[1])
handles(np.ravel)(lambda I, a, order='C': as_arr(a).ravel(order))
handles(np.swapaxes)(lambda I, a, x, y: as_arr(a).swapaxes(x, y))
handles(np.shape)(lambda I, a: as_arr(a).shape)
handles(np.ndim)(lambda I, a: as_arr(a).ndim)
handles(np.size)(lambda I, a, axis=None: as_arr(a).size if axis is None else as_arr(a).shape[axis])
handles(np.isscalar)(lambda I, a: is_scalar(a) or isinstance(a, str))
handles(np.iscomplexobj)(lambda I, a: as_arr(a).sort == 'C')
handles(np.isrealobj)(lambda I, a: as_arr(a).sort != 'C')


@handles(np.moveaxis)
def _moveaxis(I, a, s, d):
    a = as_arr(a)
    ax = [k for k in range(a.ndim) if k != s % a.ndim]
    ax.insert(d % a.ndim, s % a.ndim)
    return Y.transpose(a, ax)


def seqarg(I, x):
    if isinstance(x, (SList, SIter)):
        return x if isinstance(x, SList) else x.as_list()
    return list(I.iterate(x))


@handles(np.stack)
def _stack(I, xs, axis=0):
    return Y.stack(seqarg(I, xs), axis)


@handles(np.concatenate, np.append)
def _concat(I, xs, axis=0, *a):
    xs = seqarg(I, xs)
    if isinstance(xs, SList):
        raise Unsupported('concatenation of symbolically many arrays')
    if axis is None:
        xs = [as_arr(x).ravel() for x in xs]
        axis = 0
    return Y.concatenate(xs, axis)


def _append(I, a, b, axis=None):
    if axis is None:
        return Y.concatenate([as_arr(a).ravel(), as_arr(b).ravel()], 0)
    return Y.concatenate([a, b], axis)


HANDLERS[id(np.append)] = _append


@handles(np.vstack)
def _vstack(I, xs):
    xs = seqarg(I, xs)
    if isinstance(xs, SList):
        a = xs.stack()
        if a.ndim == 2:
            return a
        raise Unsupported('vstack of symbolically many')
    return Y.concatenate([_atleast_2d(I, x) for x in xs], 0)


@handles(np.hstack)
def _hstack(I, xs):
    xs = [_atleast_1d(I, x) for x in seqarg(I, xs)]
    return Y.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@handles(np.column_stack)
def _colstack(I, xs):
    xs = seqarg(I, xs)
    if isinstance(xs, SList):
        return Y.transpose(xs.stack())
    if xs and all(isinstance(x, Masked) and len(x.shape_) == 1 for x in xs):
        rs = [Y.as_rows(x) for x in xs]
        i0 = (P_(T.new_index('q', 0, P_(rs[0].shape_[0]))),)
        if any(not Y.same_dim(r.shape_[0], rs[0].shape_[0]) or not (r.rows(i0) - rs[0].rows(i0)).is_zero() for r in rs):
            raise Unsupported('selections by different masks')
        return Y.Rows(rs[0].rows, Y.concatenate([r.arr[:, None] for r in rs], 1))
    xs = [as_arr(x) for x in xs]
    return Y.concatenate([x[:, None] if x.ndim == 1 else x for x in xs], 1)


def _c_(I, key):
    return _colstack(I, key if isinstance(key, tuple) else (key,))


def _r_(I, key):
    xs = key if isinstance(key, tuple) else (key,)
    return Y.concatenate([_atleast_1d(I, x) for x in xs], 0)


handles(np.c_)(_c_)
handles(np.r_)(_r_)


@handles(np.repeat)
def _repeat(I, a, reps, axis=None):
    a = as_arr(a)
    if axis is None:
        a = a.ravel() if a.ndim != 1 else a
        axis = 0
    axis %= a.ndim
    rd = a.reader()
    sh = list(a.shape_)
    if is_scalar(reps) or (isinstance(reps, (Arr, np.ndarray)) and as_arr(reps).size == 1):
        r = lift(reps) if is_scalar(reps) else as_arr(reps).ravel().at((ZERO,))
        sh[axis] = Y.dim(P_(sh[axis]) * r)
        return Arr(sh, lambda i: T.lift_args(lambda q: rd(i[:axis] + (q,) + i[axis + 1:]), [Y.idiv(i[axis], r)]), a.sort)
    n = as_arr(reps)
    rn = n.reader()
    if not Y.same_dim(n.shape_[0], sh[axis]):
        raise ValueError('operands could not be broadcast together')
    L = P_(sh[axis])
    cum = lambda k: Y.tsum(0, k, lambda j: rn((j,)))
    sh[axis] = Y.dim(cum(L))

    # element i is a[k] for the k with cum(k) <= i < cum(k+1); counts are non-negative, so exactly one k matches
    kv = T.new_index('rk', 0, L + 1)
    key = T.subs(cum(P_(kv)), {kv.id: P_(REPVAR)})

    def fn(i):
        return rd(i[:axis] + (T.app('rep', i[axis], key, L, sort='I', nn=True),) + i[axis + 1:])
    return Arr(sh, fn, a.sort)


REPVAR = T.bv(300)
_repcache = {}


def _rep_rule(x, key, L):
    from . import interp as IP
    cum = lambda k: T.subs(key, {REPVAR.id: k})
    if x.is_const() and L.is_const():
        for k in range(int(L.const())):
            g = T.ind_ge(cum(P_(k + 1)) - 1 - x)
            if not g.is_const():
                return None
            if g == ONE:
                return P_(k)
        return None
    if x.is_zero() and T.ind_ge(cum(ONE) - 1) == ONE:
        return ZERO
    if len(x.d) < 2:
        return None
    ck = (x, key, L, C.CTX.version)
    if ck not in _repcache:
        if len(_repcache) > 20000:
            _repcache.clear()
        _repcache[ck] = None            # (recursion)
        _repcache[ck] = IP.single_hit(lambda k: T.ind_ge(x - cum(k)) * T.ind_ge(cum(k + 1) - 1 - x), ZERO, L, (x,))
    return _repcache[ck]


T.APP_RULES['rep'] = _rep_rule


def _rep_axiom(smt, A, x, im, args):
    pos, key, L = args
    cum = lambda k: T.subs(key, {REPVAR.id: k})
    me = P_(A)
    return [smt.real(L) > x, smt.real(cum(me)) <= smt.real(pos), smt.real(pos) < smt.real(cum(me + 1))]


C.APP_AXIOMS['rep'] = [_rep_axiom]


@handles(np.apply_along_axis)
def _apply_along_axis(I, f, axis, arr, *a, **k):
    arr = as_arr(arr)
    axis %= arr.ndim
    rd = arr.reader()
    sh = arr.shape_

    def col(others):
        r = I.call(f, (Arr((sh[axis],), lambda j: rd(others[:axis] + j + others[axis:]), arr.sort),) + a, k)
        return as_arr(r)
    others = [T.new_index('al', 0, P_(d)) for i, d in enumerate(sh) if i != axis]
    r = col(tuple(P_(x) for x in others))
    if r.ndim != 1:
        raise Unsupported('apply_along_axis of a function with other than one-dimensional result')
    iv, t = Y.gen_term(r)
    ids = [x.id for x in others] + [iv[0].id]
    return Arr(sh[:axis] + r.shape_ + sh[axis + 1:],
               lambda i: T.subs(t, dict(zip(ids, i[:axis] + i[axis + 1:] + (i[axis],)))), r.sort)


@handles(np.tile)
def _tile(I, a, reps):
    a = as_arr(a)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    n = max(a.ndim, len(reps))
    while a.ndim < n:
        a = Y.expand_dims(a, 0)
    reps = (1,) * (n - len(reps)) + tuple(reps)
    rd = a.reader()
    sh = a.shape_

    def m(i, d):
        if isinstance(d, int) and d == 1:
            return ZERO
        return Y.modulo(i, P_(d))
    rp = [lift(r) for r in reps]
    out = [Y.dim(P_(d) * r) for d, r in zip(sh, rp)]
    return Arr(out, lambda idx: rd(tuple(i if r == ONE else m(i, d) for i, d, r in zip(idx, sh, rp))), a.sort)


@handles(np.roll)
def _roll(I, a, k, axis=None):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll')
        axis = 0
    axis %= a.ndim
    n = P_(a.shape_[axis])
    kk = lift(k)
    rd = a.reader()
    return Arr(a.shape_, lambda i: T.lift_args(lambda q: rd(i[:axis] + (q,) + i[axis + 1:]), [Y.modulo(i[axis] - kk, n)]), a.sort)


@handles(np.flip)
def _flip(I, a, axis=None):
    a = as_arr(a)
    ax = range(a.ndim) if axis is None else ([axis] if isinstance(axis, int) else axis)
    ax = {x % a.ndim for x in ax}
    return a[tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim))]


handles(np.flipud)(lambda I, a: as_arr(a)[::-1])
handles(np.fliplr)(lambda I, a: as_arr(a)[:, ::-1])


@handles(np.diag)
def _diag(I, a, k=0):
    a = as_arr(a)
    if k:
        raise Unsupported('diag offset')
    rd = a.reader()
    if a.ndim == 1:
        return Arr((a.shape_[0],) * 2, lambda i: T.ind_eq(i[0] - i[1]) * rd((i[0],)), a.sort)
    n = a.shape_[0] if Y.same_dim(a.shape_[0], a.shape_[1]) else None
    if n is None:
        n = Y.dim(Y.pmin(P_(a.shape_[0]), P_(a.shape_[1])))
    return Arr((n,), None, a.sort, base=a, imap=lambda i: (i[0], i[0]), inv=lambda i: (T.ind_eq(i[0] - i[1]), (i[0],)))


@handles(np.take)
def _take(I, a, idx, axis=None):
    a = as_arr(a)
    if axis is None:
        return a.ravel()[idx]
    axis %= a.ndim
    return a[(slice(None),) * axis + (idx,)]


@handles(np.broadcast_to)
def _bto(I, a, shape):
    a = as_arr(a)
    sh = dims(shape)
    Y.bshape(a.shape_, sh)
    return Arr(sh, Y.bcast_reader(a, sh), a.sort)


@handles(np.pad)
def _pad(I, a, w, mode='constant', **k):
    a = as_arr(a)
    if mode != 'constant' or k:
        raise Unsupported('pad')
    if is_scalar(w):
        w = [(w, w)] * a.ndim
    else:
        w = list(w)
        if all(is_scalar(x) for x in w):
            w = [tuple(w)] * a.ndim
    rd = a.reader()
    lo = [lift(x[0]) for x in w]
    hi = [lift(x[1]) for x in w]
    sh = [Y.dim(P_(d) + l + h) for d, l, h in zip(a.shape_, lo, hi)]

    def fn(i):
        g = ONE
        for x, d, l, h in zip(i, a.shape_, lo, hi):
            if not l.is_zero():
                g = g * T.ind_ge(x - l)
            if not h.is_zero():
                g = g * T.ind_ge(l + P_(d) - 1 - x)
        if g.is_zero():
            return ZERO
        return g * rd(tuple(x - l for x, l in zip(i, lo)))
    return Arr(sh, fn, a.sort)


# ---------------------------------------------------------------- products
handles(np.dot)(lambda I, a, b: named_product(I, Y.dot, a, b))
handles(np.matmul)(lambda I, a, b: named_product(I, Y.matmul, a, b))
handles(np.inner)(lambda I, a, b: Y.dot(a, as_arr(b).T) if as_arr(b).ndim > 1 else Y.dot(a, b))
handles(np.vdot)(lambda I, a, b: Y.dot(as_arr(a).conj(), b))


@handles(np.outer)
def _outer(I, a, b):
    a, b = as_arr(a), as_arr(b)
    a = a.ravel() if a.ndim != 1 else a
    b = b.ravel() if b.ndim != 1 else b
    return Y.arr_arith('*', a[:, None], b[None, :])


@handles(np.isin)
def _isin(I, a, test, **k):
    if k:
        raise Unsupported('isin options')
    a, t = as_arr(a), as_arr(test)
    rd, rt = a.reader(), t.ravel().reader() if t.ndim != 1 else t.reader()
    n = t.size
    if isinstance(n, int) and n <= 8:
        def fn(i):
            r = ONE
            for c in range(n):
                r = r * (ONE - T.ind_eq(rd(i) - rt((P_(c),))))
            return ONE - r
        return Arr(a.shape_, fn, 'B')
    return Arr(a.shape_, lambda i: ONE - T.ind_eq(Y.tsum(ZERO, lift(n), lambda c: T.ind_eq(rd(i) - rt((c,))))), 'B')


@handles(np.cross)
def _cross(I, a, b, axis=-1):
    a, b = as_arr(a), as_arr(b)
    sh = Y.bshape(a.shape_, b.shape_)
    ra, rb = Y.bcast_reader(a, sh), Y.bcast_reader(b, sh)
    if sh[-1] != 3:
        raise Unsupported('cross product dimension')

    def fn(idx):
        pre = idx[:-1]

        def comp(c):
            i, j = (c + 1) % 3, (c + 2) % 3
            f = lambda r, k: r(pre + (P_(k),))
            return f(ra, i) * f(rb, j) - f(ra, j) * f(rb, i)
        return Y.pick(idx[-1], 3, comp)
    return Arr(sh, fn, jsort(a.sort, b.sort))


@handles(np.kron)
def _kron(I, a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        raise Unsupported('kron')
    ra, rb = a.reader(), b.reader()
    sh = [Y.dim(P_(x) * P_(y)) for x, y in zip(a.shape_, b.shape_)]
    bd = [P_(d) for d in b.shape_]

    def fn(i):
        q = tuple(Y.idiv(x, d) for x, d in zip(i, bd))
        r = tuple(x - y * d for x, y, d in zip(i, q, bd))
        return T.lift_args(lambda *z: ra(tuple(z)), list(q)) * T.lift_args(lambda *z: rb(tuple(z)), list(r))
    return Arr(sh, fn, jsort(a.sort, b.sort))


@handles(np.einsum)
def _einsum(I, spec, *ops):
    if not isinstance(spec, str) or '.' in spec:
        raise Unsupported('einsum')
    spec = spec.replace(' ', '')
    ops = [as_arr(o) for o in ops]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        out = ''.join(sorted(c for c in set(ins) - {','} if ins.count(c) == 1))
    ins = ins.split(',')
    size = {}
    for s, o in zip(ins, ops):
        for c, d in zip(s, o.shape_):
            if c in size:
                if not Y.same_dim(size[c], d):
                    raise ValueError('einsum dimension mismatch')
            else:
                size[c] = d
    summed = [c for c in size if c not in out]
    rds = [o.reader() for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(k, e):
            if k == len(summed):
                r = ONE
                for s, rd in zip(ins, rds):
                    r = r * rd(tuple(e[c] for c in s))
                return r
            return Y.tsum(0, P_(size[summed[k]]), lambda j: rec(k + 1, {**e, summed[k]: j}))
        return rec(0, env)
    return Y.wrap0(Arr([size[c] for c in out], fn, jsort('I', *[o.sort for o in ops])))


@handles(np.convolve)
def _np_convolve(I, a, b, mode='full'):
    a, b = as_arr(a), as_arr(b)
    if a.ndim > 1 or b.ndim > 1:
        raise ValueError('object too deep for desired array')
    if mode != 'full':
        raise Unsupported('convolution mode')
    a, b = (Y.reshape(x, (1,)) if x.ndim == 0 else x for x in (a, b))
    return convolution(a, b, 'full', None)


@handles(scipy.signal.convolve)
def _convolve(I, a, b, mode='full', method='auto'):
    return convolution(seq_arr(I, a), seq_arr(I, b), mode, None)


@handles(scipy.signal.fftconvolve, scipy.signal.oaconvolve)
def _fftconvolve(I, a, b, mode='full', axes=None):
    return convolution(seq_arr(I, a), seq_arr(I, b), mode, axes)


def seq_arr(I, x):
    """array-like argument; an object of the package is read through its length and items"""
    t = type(x)
    if I.is_pkg(t) and hasattr(t, '__len__') and hasattr(t, '__getitem__'):
        n = lift(I.call(t.__len__, (x,)))
        k = T.new_index('o', ZERO, n)
        it = as_arr(I.call(t.__getitem__, (x, S(P_(k)))))
        if any(k.id in P_(d).fv for d in it.shape_):
            raise Unsupported('ragged object')
        iv, body = Y.gen_term(it)
        ids = [v.id for v in iv]
        return Arr((n,) + it.shape_, lambda i: T.subs(body, {k.id: i[0], **dict(zip(ids, i[1:]))}), it.sort)
    return as_arr(x)


def convolution(a, b, mode, axes):
    """convolution along the axes (all by default), the other axes broadcast"""
    if a.ndim != b.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    n = a.ndim
    if n == 0:
        return I.binop('*', a, b)
    ax = tuple(range(n)) if axes is None else tuple(int(x) % n for x in (axes if isinstance(axes, (tuple, list)) else (axes,)))
    if mode not in ('full', 'same', 'valid'):
        raise ValueError('acceptable mode flags are valid, same, or full')
    if mode == 'valid':
        raise Unsupported('convolution mode')
    ra, rb = a.reader(), b.reader()
    rest = [k for k in range(n) if k not in ax]
    bs = dict(zip(rest, Y.bshape(tuple(a.shape_[k] for k in rest), tuple(b.shape_[k] for k in rest))))
    shape, off = [], {}
    for k in range(n):
        na, nb = P_(a.shape_[k]), P_(b.shape_[k])
        if k in bs:
            shape.append(bs[k])
        elif mode == 'full':
            shape.append(na + nb - 1)
        else:
            shape.append(na)
            off[k] = T.floor((nb - 1).scale(Fr(1, 2)))

    def one(d):
        return isinstance(d, int) and d == 1 or isinstance(d, P) and d == ONE

    def fn(idx):
        def rec(k, ia, ib):
            if k == n:
                return ra(ia) * rb(ib)
            A, B = a.shape_[k], b.shape_[k]
            if k in bs:
                return rec(k + 1, ia + (ZERO if one(A) and not one(bs[k]) else idx[k],),
                           ib + (ZERO if one(B) and not one(bs[k]) else idx[k],))
            m = idx[k] + off.get(k, 0)
            if one(B):
                return rec(k + 1, ia + (m,), ib + (ZERO,))
            if one(A):
                return rec(k + 1, ia + (ZERO,), ib + (m,))
            return Y.tsum(0, P_(A), lambda i: Y.tsum(0, P_(B), lambda j: rec(k + 1, ia + (i,), ib + (j,)) * T.ind_eq(i + j - m)))
        return rec(0, (), ())
    return Arr(tuple(shape), fn, jsort('R', a.sort, b.sort))


# ---------------------------------------------------------------- comparison helpers
@handles(np.array_equal)
def _aeq(I, a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim or not all(Y.same_dim(x, y) for x, y in zip(a.shape_, b.shape_)):
        return False
    return Y.reduce_all(as_arr(Y.arr_cmp('==', a, b)))


@handles(np.isclose)
def _isclose(I, a, b, rtol=None, atol=None, equal_nan=False, **k):
    if k:
        raise Unsupported('isclose options')
    # numpy: |a - b| <= atol + rtol |b|  (finite values)
    a, b = (as_arr(x) if isinstance(x, (list, tuple)) else x for x in (a, b))
    r, t = 1e-5 if rtol is None else rtol, 1e-8 if atol is None else atol
    return Y.cmp('<=', _abs(I, I.binop('-', a, b)), I.binop('+', t, I.binop('*', r, _abs(I, b))))


@handles(np.allclose)
def _allclose(I, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    c = _isclose(I, as_arr(a), as_arr(b), rtol, atol)
    return Y.reduce_all(as_arr(c))


# ---------------------------------------------------------------- opaque linear algebra
class Rec:
    """record of an external call whose result is only specified by a law"""
    def __init__(self, name, args, result):
        self.name, self.args, self.result = name, args, result


_uid = [0]


_deps = [()]        # index variables the arguments of the current external call depend on
RIGID = set()       # variables that stand for one arbitrary value throughout an obligation


def opaque(name, shape, sort):
    """array of opaque values, a function of the enclosing index variables; a fresh name per call"""
    _uid[0] += 1
    nm = f'{name}#{_uid[0]}'
    ex = tuple(P_(T.atom(a)) for a in _deps[0])
    return Arr(shape, lambda i: T.app(nm, *ex, *i, sort=sort), sort)


def flexible(key):
    fv = set()

    def rec(x):
        if isinstance(x, P):
            fv.update(x.fv)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    rec(key)
    return tuple(sorted(a for a in fv if a in T.RANGE and a not in RIGID and T.atom(a).kind == 'var'))


def key_subs(key, mp):
    if isinstance(key, P):
        return T.subs(key, mp)
    if isinstance(key, tuple):
        return tuple(key_subs(x, mp) for x in key)
    return key


def res_subs(r, mp):
    if isinstance(r, tuple):
        return tuple(res_subs(x, mp) for x in r)
    return Y.vsubs(r, mp) if isinstance(r, (Arr, S)) else r


def mat_key(a):
    """canonical key of the content of an array"""
    h = 200
    bvs = [P_(T.bv(h + k)) for k in range(a.ndim)]
    iv, t = Y.gen_term(a)
    return (tuple(P_(d) for d in a.shape_), T.subs(t, {v.id: b for v, b in zip(iv, bvs)}))


def same_call(I, name, key):
    for r in I.calls:
        if r.name == name and getattr(r, 'key', None) == key:
            return r
    return None


def instance_of(I, name, key):
    """an earlier call of which this one is an instance, and the values of its index variables"""
    cand = None
    for r in I.calls:
        if r.name != name or not getattr(r, 'deps', ()) or len(r.deps) > 2:
            continue
        if cand is None:
            cand = index_terms(key)
        for vals in itertools.product(cand, repeat=len(r.deps)):
            if key_subs(r.key, {P_(T.bv(400 + i)).as_atom().id: v for i, v in enumerate(vals)}) == key:
                return r, vals
    return None, None


def index_terms(key):
    out = []

    def poly(p):
        for m in p.d:
            for a, _ in m:
                atom(T.atom(a))

    def atom(A):
        if A.kind == 'app':
            if A.sort == 'I' and A.data[0] in ('first', 'argmin', 'argmax') and P_(A) not in out:
                out.append(P_(A))
                return
            for x in A.data[1]:
                if isinstance(x, P):
                    poly(x)
        elif A.kind == 'var' and A.sort == 'I' and A.id in T.RANGE and P_(A) not in out:
            out.append(P_(A))
        elif A.kind == 'pa':
            poly(A.data)
        elif A.kind == 'pw':
            poly(P({A.data[1]: Fr(1)}))
            if isinstance(A.data[0], P):
                poly(A.data[0])
        elif A.kind == 'conj':
            atom(T.atom(A.data))

    def rec(x):
        if isinstance(x, P):
            poly(x)
        elif isinstance(x, tuple):
            for y in x:
                rec(y)
    rec(key)
    return out[:6]


def fresh_copy(r):
    """results handed to the program are its own arrays; the recorded ones stay as they are"""
    if isinstance(r, Arr):
        return r.copy()
    if isinstance(r, tuple):
        return tuple(fresh_copy(x) for x in r)
    return r


def lawful(name, outs, *nps):
    """external function given by a law: outs(I, *args, **kw) -> (key arrays, result)"""
    def h(I, *a, **k):
        arrs, res = outs(I, *a, **k)
        key = tuple(mat_key(x) for x in arrs) + tuple(sorted((q, str(v)) for q, v in k.items() if q != 'fn'))
        deps = flexible(key)
        gen = key_subs(key, {d: P_(T.bv(400 + i)) for i, d in enumerate(deps)})
        old = same_call(I, name, gen)
        if old is not None:
            return fresh_copy(res_subs(old.result, {d: P_(T.atom(e)) for d, e in zip(old.deps, deps)}))
        old, inst = instance_of(I, name, key)
        if old is not None:
            return fresh_copy(res_subs(old.result, dict(zip(old.deps, inst))))
        save, _deps[0] = _deps[0], deps
        try:
            r = Rec(name, arrs, res())
        finally:
            _deps[0] = save
        r.key, r.deps = gen, deps
        I.calls.append(r)
        from . import laws
        if name in laws.LAWS:
            laws.LAWS[name](I, r)
        for f in I.hooks.get(name, ()):
            f(I, r)
        return fresh_copy(r.result)
    handles(*nps)(h)
    return h


def named_product(I, f, a, b):
    """product of small matrices; if the specification asks for it the result gets a name, its definition being recorded"""
    if I.name_products and Y.has_sym((a, b)) and not (is_scalar(a) or is_scalar(b)):
        a, b = as_arr(a), as_arr(b)
        if a.ndim and b.ndim and all(isinstance(d, int) and d <= 4 for d in a.shape_ + b.shape_):
            return _dot_law(I, a, b, fn=f)
    return f(a, b)


def _dot(I, a, b, fn=None):
    r = fn(a, b)
    if isinstance(r, S):
        return [a, b], lambda: S(opaque('dot', (), 'R' if r.p.is_real() else 'C').at(()))
    return [a, b], lambda: opaque('dot', r.shape_, r.sort)


def _sq(a):
    if a.ndim < 2 or not Y.same_dim(a.shape_[-1], a.shape_[-2]):
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')


def _inv(I, a):
    a = as_arr(a)
    _sq(a)
    return [a], lambda: opaque('inv', a.shape_, jsort('R', a.sort))


_BENIGN = ('check_finite', 'overwrite_a', 'overwrite_b', 'order', 'copy', 'subok', 'dtype')


def nok(k, *allowed):
    """options without influence on the value, others are not modelled"""
    for q, x in k.items():
        if q not in allowed and q not in _BENIGN and x is not None:
            raise Unsupported('option ' + q)


def cutoff(r, k):
    """relative cut-off for singular values: only values that do not act on matrices of sound condition"""
    q = (list(r) + [k.pop(n) for n in ('rcond', 'rtol', 'cond') if n in k] + [None])[0]
    if len(r) > 1 or not (q is None or isinstance(q, (int, float, Fr)) and q <= 1e-14):
        raise Unsupported('cut-off of singular values')
    nok(k)


def _pinv(I, a, *r, **k):
    a = as_arr(a)
    cutoff(r, dict(k))
    return [a], lambda: opaque('pinv', a.shape_[:-2] + (a.shape_[-1], a.shape_[-2]), jsort('R', a.sort))


def _solve(I, a, b, **k):
    nok(k)
    a, b = as_arr(a), as_arr(b)
    _sq(a)
    return [a, b], lambda: opaque('solve', b.shape_, jsort('R', a.sort, b.sort))


def _lstsq(I, a, b, *r, **k):
    cutoff(r, dict(k))
    a, b = as_arr(a), as_arr(b)
    s = jsort('R', a.sort, b.sort)
    return [a, b], lambda: (opaque('lstsq', (a.shape_[1],) + b.shape_[1:], s), None, None, None)


def _eigh(I, a, **k):
    nok(k)
    a = as_arr(a)
    return [a], lambda: (opaque('eigval', a.shape_[:1], 'R'), opaque('eigvec', a.shape_, jsort('R', a.sort)))


def _eigvalsh(I, a, **k):
    nok(k)
    a = as_arr(a)
    return [a], lambda: opaque('eigval', a.shape_[:1], 'R')


def _svd(I, a, full_matrices=True, compute_uv=True, **k):
    nok(k)
    a = as_arr(a)
    m, n = a.shape_
    r = Y.dim(Y.pmin(P_(m), P_(n)))
    s = jsort('R', a.sort)
    if not compute_uv:
        return [a], lambda: opaque('sv', (r,), 'R')
    return [a], lambda: (opaque('U', (m, m if full_matrices else r), s), opaque('sv', (r,), 'R'),
                         opaque('Vh', (n if full_matrices else r, n), s))


def _det(I, a):
    a = as_arr(a)
    if all(isinstance(d, int) and d <= 3 for d in a.shape_) and a.ndim == 2:
        from itertools import permutations
        n = a.shape_[0]
        r = ZERO
        for p in permutations(range(n)):
            sg = 1
            for i in range(n):
                for j in range(i):
                    if p[j] > p[i]:
                        sg = -sg
            t = P_(sg)
            for i in range(n):
                t = t * a.at((P_(i), P_(p[i])))
            r = r + t
        return S(r)
    raise Unsupported('determinant')


handles(np.linalg.det)(_det)


def small_inverse(a):
    """exact inverse (adjugate) of a concrete small or sparse matrix, or None"""
    if a.ndim != 2 or not all(isinstance(d, int) and 1 <= d <= 4 for d in a.shape_):
        return None
    n = a.shape_[0]
    e = [[C.CTX.simp(a.at((P_(i), P_(j)))) for j in range(n)] for i in range(n)]
    nz = sum(1 for r in e for x in r if not x.is_zero())
    if n == 4 and nz > 7:
        return None

    def det(rows, cols):
        if not rows:
            return ONE
        r, t = rows[0], ZERO
        for k, c in enumerate(cols):
            if not e[r][c].is_zero():
                q = det(rows[1:], cols[:k] + cols[k + 1:]) * e[r][c]
                t = t + (q if k % 2 == 0 else -q)
        return t
    full = list(range(n))
    d = det(full, full)
    if d.is_zero():
        raise np.linalg.LinAlgError('Singular matrix')
    if not d.is_const():
        Y.DIVISORS.append((d, list(C.CTX.facts)))
    di = T.lift_args(lambda x: x.pow(-1), [d])
    inv = [[None] * n for _ in full]
    for i in full:
        for j in full:
            m = det([r for r in full if r != j], [c for c in full if c != i])
            inv[i][j] = m.scale((-1) ** (i + j)) * di
    return Arr((n, n), lambda ix: Y.select(ix, (n, n), lambda c: inv[c[0]][c[1]]), jsort('R', a.sort))


def _inv_h(I, a, **k):
    nok(k)
    r = small_inverse(as_arr(a)) if not I.opaque_inverse else None
    return r if r is not None else _inv_law(I, a, **k)
lawful('inv', _inv, np.linalg.inv, scipy.linalg.inv)
_inv_law = HANDLERS[id(np.linalg.inv)]
handles(np.linalg.inv, scipy.linalg.inv)(_inv_h)
lawful('pinv', _pinv, np.linalg.pinv, scipy.linalg.pinv)
lawful('solve', _solve, np.linalg.solve, scipy.linalg.solve)
lawful('lstsq', _lstsq, np.linalg.lstsq, scipy.linalg.lstsq)
_lstsq_law = HANDLERS[id(np.linalg.lstsq)]


def _lstsq_h(I, a, b, *r, **k):
    cutoff(r, dict(k))
    a, b = as_arr(a), as_arr(b)
    if not I.opaque_inverse and a.ndim == 2 and Y.same_dim(a.shape_[0], a.shape_[1]):
        x = small_inverse(a)          # (non-singular matrices; the determinant is recorded as a divisor)
        if x is not None:
            return (Y.matmul(x, b), None, None, None)
    return _lstsq_law(I, a, b, *r, **k)


_dot_law = lawful('dot', _dot)
handles(np.linalg.lstsq, scipy.linalg.lstsq)(_lstsq_h)
lawful('eigh', _eigh, np.linalg.eigh, scipy.linalg.eigh)
lawful('eigvalsh', _eigvalsh, np.linalg.eigvalsh)
lawful('svd', _svd, np.linalg.svd, scipy.linalg.svd)


# ---------------------------------------------------------------- transforms (linear maps given by their law)
def _rfft(I, x, n=None, axis=-1, **k):
    nok(k)
    x = as_arr(x)
    ax = axis % x.ndim
    m = lift(n) if n is not None else P_(x.shape_[ax])
    sh = list(x.shape_)
    sh[ax] = Y.dim(Y.idiv(m, P_(2)) + 1)
    rd = x.reader()
    L = P_(x.shape_[ax])

    def fn(idx):
        def term(t):
            g = T.ind_ge(m - 1 - t) if not surely_le(L, m) else ONE
            return g * rd(idx[:ax] + (t,) + idx[ax + 1:]) * T.expi((T.PI * idx[ax] * t).scale(-2) / m)
        return Y.tsum(0, L, term)
    return Arr(sh, fn, 'C')


def surely_le(a, b):
    return (b - a).is_zero() or C.CTX.entails_ge(b - a)


handles(np.fft.rfft)(_rfft)


def _fft(I, x, n=None, axis=-1, **k):
    nok(k)
    x = as_arr(x)
    ax = axis % x.ndim
    m = lift(n) if n is not None else P_(x.shape_[ax])
    r = _rfft(I, x, n, axis)
    sh = list(r.shape_)
    sh[ax] = Y.dim(m)
    return Arr(sh, r.reader(), 'C')


handles(np.fft.fft)(_fft)


def _irfft(I, x, n=None, axis=-1, **k):
    nok(k)
    x = as_arr(x)
    ax = axis % x.ndim
    m = lift(n) if n is not None else (P_(x.shape_[ax]) - 1).scale(2)
    sh = list(x.shape_)
    sh[ax] = Y.dim(m)
    return [x], lambda: opaque('irfft', sh, 'R')


lawful('irfft', _irfft, np.fft.irfft)


@handles(np.fft.rfftfreq)
def _rfftfreq(I, n, d=1.0):
    n, d = lift(n), lift(d)
    return Arr((Y.idiv(n, P_(2)) + 1,), lambda i: i[0] / (n * d), 'R')


# ---------------------------------------------------------------- special functions
def _sph_harm(I, m, n, azi, zen):
    """scipy.special.sph_harm(m, n, azimuth, zenith): orthonormal complex harmonics with Condon-Shortley phase"""
    return eapply(sph_harm_term, m, n, azi, zen, sort='C')


def sph_harm_term(m, n, azi, zen):
    """Nc(n, |m|) P_n^|m|(cos zen) e^{i m azi}, with the factor (-1)^m for m < 0"""
    def f(m, n, azi, zen):
        am = T.absv(m)
        base = T.app('NP', n, am, zen, sort='R')
        e = T.expi(m * azi)
        g = T.ind_ge(m)
        if not g.is_const():
            g = C.CTX.simp(g, solve=True)
        if g == ONE:
            return base * e
        if g.is_zero():
            return T.parity(m) * base * e
        return (g + (ONE - g) * T.parity(m)) * base * e
    return T.lift_args(f, [m, n, azi, zen])


def np_explicit(n, m, zen):
    """normalised associated Legendre function of sph_harm for concrete degree and order"""
    c = {0: Fr(1)}                       # P_n as {power: coefficient}
    a, b = {0: Fr(1)}, {1: Fr(1)}
    if n == 0:
        c = a
    elif n == 1:
        c = b
    else:
        for j in range(1, n):
            r = {}
            for k, v in b.items():
                r[k + 1] = r.get(k + 1, 0) + v * Fr(2 * j + 1, j + 1)
            for k, v in a.items():
                r[k] = r.get(k, 0) - v * Fr(j, j + 1)
            a, b = b, r
        c = b
    for _ in range(m):
        c = {k - 1: v * k for k, v in c.items() if k > 0}
    x, sn = T.cos(zen), T.sin(zen)
    s = ZERO
    for k, v in c.items():
        s = s + x.pow(k).scale(v) if k else s + P_(v)
    nrm = Fr(2 * n + 1) * Fr(math.factorial(n - m), math.factorial(n + m))
    return s * (sn.pow(m) if m else ONE).scale((-1) ** m) * (P_(nrm) / (T.PI.scale(4))).pow(Fr(1, 2))


def expand_np(p):
    """explicit harmonics in the term p"""
    mp = {}
    for a in p.atoms():
        A = T.atom(a)
        if A.kind == 'app' and A.data[0] == 'NP' and A.data[1][0].is_const() and A.data[1][1].is_const():
            mp[a] = np_explicit(int(A.data[1][0].const()), int(A.data[1][1].const()), A.data[1][2])
    r = ZERO
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            t = t * (mp[a].pow(e) if a in mp else T.mono_poly({a: e}))
        r = r + t
    return r


for _n in ('sph_harm',):
    if hasattr(scipy.special, _n):
        handles(getattr(scipy.special, _n))(_sph_harm)


@handles(scipy.special.eval_legendre)
def _eval_legendre(I, n, x):
    return eapply(lambda n, x: T.lift_args(plegendre, [n, x]), n, x, sort='R')


def plegendre(n, x):
    if n.is_const():
        k = int(n.const())
        a, b = ONE, x
        if k == 0:
            return ONE
        for j in range(1, k):
            a, b = b, (b * x * (2 * j + 1) - a * j).scale(Fr(1, j + 1))
        return b
    if x == ONE:
        return ONE
    return T.app('legendre', n, x, sort='R')


T.REBUILD.update({'legendre': plegendre, 'fact': fact, 'acos': pacos, 'asin': pasin, 'atan2': patan2, 'modulo': Y.modulo, 'rint': Y.rint,
                  'idiv': Y.idiv})


def _noop(I, *a, **k):
    return None


import warnings
import logging
handles(warnings.warn, logging.info, logging.warning, logging.debug)(_noop)


@handles(np.delete)
def _delete(I, a, obj, axis=None):
    """rows (columns ..) not named by obj: one index, or a contiguous run of indices (given by an affine index array)"""
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('delete without axis')
        axis = 0
    axis = axis % a.ndim
    n = P_(a.shape_[axis])
    if isinstance(obj, slice):
        if obj.step not in (None, 1):
            raise Unsupported('delete with a step')
        start = lift(obj.start) if obj.start is not None else ZERO
        stop = lift(obj.stop) if obj.stop is not None else n
        cnt = stop - start
    elif is_scalar(obj):
        start, cnt = lift(obj), ONE
    else:
        o = as_arr(obj)
        if o.ndim == 0:
            start, cnt = o.at(()), ONE
        else:
            if o.ndim != 1:
                raise Unsupported('delete with an index matrix')
            cnt = P_(o.shape_[0])
            if cnt.is_zero():
                return a.copy()
            start = o.at((ZERO,))
            x = T.fresh('x', 'I')
            if not (o.at((P_(x),)) - start - P_(x)).is_zero():
                raise Unsupported('delete with a scattered index list')
    if Y.surely(T.ind_ge(-start - 1)):
        start = start + n
    if not (Y.surely(T.ind_ge(start)) and Y.surely(T.ind_ge(n - start - cnt))):
        if is_scalar(obj) and C.CTX.decide_poly(ONE - T.ind_ge(start) * T.ind_ge(n - start - cnt)):
            raise IndexError('index out of bounds')
        elif not is_scalar(obj):
            raise Unsupported('delete: index range')
    return delete_run(a, start, cnt, axis)


def delete_run(a, start, cnt, axis):
    n = P_(a.shape_[axis])
    rd = a.reader()
    sh = list(a.shape_)
    sh[axis] = Y.dim(n - cnt)

    def fn(i):
        k = i[axis]
        up = T.ind_ge(k - start)
        at = lambda q: rd(i[:axis] + (q,) + i[axis + 1:])
        if up.is_const():
            return at(k + cnt if up == ONE else k)
        return up * at(k + cnt) + (ONE - up) * at(k)
    return Arr(tuple(sh), fn, a.sort)


Y.DELETE[0] = delete_run


@handles(np.tensordot)
def _tensordot(I, a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [list(q) if isinstance(q, (list, tuple)) else [int(q)] for q in axes]
    xa, xb = [q % a.ndim for q in xa], [q % b.ndim for q in xb]
    if len(xa) != 1 or len(xb) != 1:
        raise Unsupported('tensordot over several axes')
    ra = [k for k in range(a.ndim) if k not in xa]
    rb = [k for k in range(b.ndim) if k not in xb]
    at, bt = Y.transpose(a, ra + xa), Y.transpose(b, xb + rb)
    n = at.shape_[-1]
    if not Y.same_dim(n, bt.shape_[0]):
        raise ValueError('shape-mismatch for sum')
    r1, r2, na = at.reader(), bt.reader(), len(ra)
    return Arr(tuple(at.shape_[:-1]) + tuple(bt.shape_[1:]),
               lambda i: Y.tsum(ZERO, P_(n), lambda k: r1(i[:na] + (P_(k),)) * r2((P_(k),) + i[na:])), Y.jsort(a.sort, b.sort))


# ---------------------------------------------------------------- functions of every vector along an axis
def rowwise(name, x, axis, n_out, params=(), sort='R'):
    """result of an external function applied to every vector along one axis: depends on that vector and the parameters only"""
    x = as_arr(x)
    ax = int(axis) % x.ndim
    rd = x.reader()
    params = tuple(P_(lift(q)) for q in params)

    def fn(idx):
        k = T.new_index('r', ZERO, P_(x.shape_[ax]))
        t = rd(tuple(P_(k) if j == ax else i for j, i in enumerate(idx)))
        h = 1 + max([t.h] + [q.h for q in params])
        key = T.subs(t, {k.id: P_(T.bv(h + 50))})
        return T.app(name, key, P_(x.shape_[ax]), *params, idx[ax], sort=sort)
    return Arr(tuple(n_out if j == ax else d for j, d in enumerate(x.shape_)), fn, sort)


try:
    import resampy

    @handles(resampy.resample)
    def _resample(I, x, sr_orig, sr_new, axis=-1, **k):
        if k:
            raise Unsupported('resampling options')
        x = as_arr(x)
        a, b = lift(sr_orig), lift(sr_new)
        n = T.floor(P_(x.shape_[int(axis) % x.ndim]) * b * a.pow(-1))
        return rowwise('resample', x, axis, n, (a, b))
except ImportError:
    pass


# ---------------------------------------------------------------- windows, random numbers, filters
def cos_window(a0, a1):
    def h(I, M, sym=True, **k):
        if not (sym is True) or k:
            raise Unsupported('periodic window')
        m = lift(M)
        if C.CTX.decide_poly(T.ind_ge(-m)):
            return as_arr(np.array([]))
        if C.CTX.decide_poly(T.ind_eq(m - 1)):
            return filled((1,), ONE, 'R')
        c0, c1 = P_(Fr(a0)), P_(Fr(a1))
        return Arr((m,), lambda i: c0 - c1 * T.cos(T.PI.scale(2) * i[0] / (m - 1)), 'R')
    return h


handles(np.hanning, scipy.signal.windows.hann)(cos_window('1/2', '1/2'))
handles(np.hamming, scipy.signal.windows.hamming)(cos_window('0.54', '0.46'))


@handles(np.random.randn)
def _randn(I, *shape):
    # any values; another array at every call
    if C.CTX.parallel:
        raise Unsupported('random numbers in a symbolic loop')
    return opaque('randn', tuple(lift(s) for s in shape), 'R')


def _sosfiltfilt(I, sos, x, axis=-1, **k):
    nok(k)
    x = as_arr(x)
    if sos is None or isinstance(sos, np.ndarray):
        s = as_arr(sos)
    else:
        s = as_arr(sos)
    return [s, x, as_arr(axis)], lambda: opaque('sosfiltfilt', x.shape_, 'R')


lawful('sosfiltfilt', _sosfiltfilt, scipy.signal.sosfiltfilt)
lawful('butter', lambda I, N, Wn, btype='low', analog=False, output='ba', fs=None:
       ([as_arr(x) for x in (N, Wn, 0 if fs is None else fs, int.from_bytes(btype.encode(), 'big'), int(analog))], lambda: opaque('butter', (P_(2 if output == 'sos' else 1), P_(6)), 'R')),
       scipy.signal.butter)
