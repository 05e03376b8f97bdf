"""Symbolic scalars, arrays (symbolic shape and content), lists; the numpy data model the interpreter works on.

Arr: an n-dimensional array given by its shape (each dimension an int or an integer term) and a function from index
terms to an element term.  Assignment through an index replaces that function in the owning array, views refer to
their owner, everything else takes a snapshot: this is numpy's copy / view behaviour.
"""
import math
import numbers
from fractions import Fraction as Fr
import numpy as _np
from . import terms as T
from . import core as C
from .terms import P, P_, ZERO, ONE, Unsupported

SORTS = {'B': 0, 'I': 1, 'R': 2, 'C': 3}


def jsort(*s):
    return max(s, key=lambda x: SORTS[x])


def psort(p):
    return 'I' if p.is_int() else 'R' if p.is_real() else 'C'


_serial = [0]
DIVISORS = []     # divisors met during execution (definedness conditions)


def serial():
    _serial[0] += 1
    return _serial[0]


def const_p(x):
    if isinstance(x, float):
        if x == math.pi:
            return T.PI
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('non-finite constant')
        if abs(x) > 1e-300:
            for k in (1, 2, 3, 4, 6, 8):
                for n in (1, 2, 3, 4, 5, 8):
                    if x == n * math.pi / k or x == -n * math.pi / k:
                        q = Fr(n, k) if x > 0 else -Fr(n, k)
                        if q.denominator * q.numerator != 1 or True:
                            return T.PI.scale(q)
        return P_(Fr(repr(x)))
    return P_(x)


def lift(x):
    """scalar python / numpy / symbolic value -> term"""
    if isinstance(x, S):
        return x.p
    if isinstance(x, P):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return ONE if x else ZERO
    if isinstance(x, (int, _np.integer)):
        return P_(int(x))
    if isinstance(x, Fr):
        return P_(x)
    if isinstance(x, (float, _np.floating)):
        return const_p(float(x))
    if isinstance(x, (complex, _np.complexfloating)):
        return const_p(float(x.real)) + const_p(float(x.imag)) * T.I
    if isinstance(x, Arr) and all(d == 1 for d in x.shape):
        return x.at((ZERO,) * len(x.shape))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported(f'scalar expected, got {type(x).__name__}')


def is_scalar(x):
    return isinstance(x, (S, bool, int, float, complex, Fr, _np.generic)) or (isinstance(x, _np.ndarray) and x.ndim == 0)


def is_sym(x):
    return isinstance(x, (S, Arr, SList, SSel, Masked, SIter, FluxList))


def has_sym(x, d=0):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple, set)) and d < 6:
        return any(has_sym(y, d + 1) for y in x)
    if isinstance(x, dict) and d < 6:
        return any(has_sym(y, d + 1) for y in x.values())
    if isinstance(x, slice):
        return any(has_sym(y) for y in (x.start, x.stop, x.step))
    return False


def mk(p, b=False):
    """term -> python value; integer and boolean constants become python ints / bools"""
    if p.is_const():
        c = p.const()
        if b:
            return bool(c)
        if c.denominator == 1 and p.is_int():
            return S(p) if False else int(c)
    return S(p, b)


def mkr(p):
    """term of a float valued expression (constants stay symbolic so that divisions stay exact)"""
    return S(p)


class S:
    """symbolic scalar"""
    __slots__ = ('p', 'b')
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, p, b=False):
        self.p, self.b = p, b

    def __repr__(self):
        return f'S({self.p})'

    # arithmetic
    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return arith('**', o, self)
    def __matmul__(self, o): raise ValueError('matmul: Input operand does not have enough dimensions')
    def __neg__(self): return S(-self.p)
    def __pos__(self): return self
    def __abs__(self): return S(T.absv(self.p))
    def __eq__(self, o): return cmp('==', self, o)
    def __ne__(self, o): return cmp('!=', self, o)
    def __lt__(self, o): return cmp('<', self, o)
    def __le__(self, o): return cmp('<=', self, o)
    def __gt__(self, o): return cmp('>', self, o)
    def __ge__(self, o): return cmp('>=', self, o)
    def __and__(self, o): return arith('&', self, o)
    def __rand__(self, o): return arith('&', o, self)
    def __or__(self, o): return arith('|', self, o)
    def __ror__(self, o): return arith('|', o, self)
    def __xor__(self, o): return arith('^', self, o)
    def __invert__(self):
        return mk(ONE - self.p, True) if self.b else S(-self.p - 1)

    def __bool__(self):
        if self.p.is_const():
            return self.p.const() != 0
        if self.b:
            return C.CTX.decide_poly(self.p)
        return not C.CTX.decide_poly(T.ind_eq(self.p))

    def __hash__(self):
        return hash(self.p)

    def __index__(self):
        p = C.CTX.simp(self.p, solve=True) if not self.p.is_const() else self.p
        if p.is_const() and p.const().denominator == 1:
            return int(p.const())
        raise Unsupported(f'concrete integer needed: {self.p}')

    def __int__(self):
        p = T.trunc(self.p)
        if p.is_const():
            return int(p.const())
        raise Unsupported(f'concrete integer needed: {self.p}')

    def __float__(self):
        from .numeric import ev
        if not self.p.fv and self.p.is_real():
            return float(ev(self.p, {}))
        raise Unsupported(f'concrete number needed: {self.p}')

    def __round__(self, n=None):
        return S(rint(self.p))

    # numpy scalar interface
    @property
    def real(self): return S(self.p.re())
    @property
    def imag(self): return S(self.p.im())
    @property
    def T(self): return self
    @property
    def dtype(self): return DType('B' if self.b else psort(self.p))

    def conj(self): return S(self.p.conj())
    conjugate = conj
    def copy(self): return self
    def item(self): return self
    def astype(self, t, **k): return S(cast(self.p, sort_of_dtype(t)))
    def reshape(self, *s): return as_arr(self).reshape(*s)
    def sum(self, axis=None): return self
    def any(self): return self
    def all(self): return self
    def max(self): return self
    def min(self): return self
    def mean(self): return self
    def ravel(self): return as_arr(self).reshape((1,))
    flatten = ravel
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def squeeze(self): return self
    def is_integer(self): return self.p.is_int()


class DType:
    """sort of an array as a dtype"""
    def __init__(self, sort):
        self.sort = sort
    def __eq__(self, o):
        try:
            return sort_of_dtype(o) == self.sort
        except Exception:
            return False
    def __hash__(self):
        return hash(self.sort)
    @property
    def kind(self):
        return {'B': 'b', 'I': 'i', 'R': 'f', 'C': 'c'}[self.sort]
    @property
    def type(self):
        return {'B': _np.bool_, 'I': _np.int64, 'R': _np.float64, 'C': _np.complex128}[self.sort]


def sort_of_dtype(d):
    if d is None:
        return None
    if isinstance(d, DType):
        return d.sort
    t = _np.dtype(d)
    k = t.kind
    if k == 'f' and t.itemsize < 8 or k == 'c' and t.itemsize < 16 or k in 'iu' and t.itemsize < 4:
        raise Unsupported('reduced precision: ' + str(t))
    return {'b': 'B', 'i': 'I', 'u': 'I', 'f': 'R', 'c': 'C'}[k]


def cast(p, sort):
    """value conversion when stored with the given sort"""
    if sort is None or sort == 'C':
        return p
    if sort == 'R':
        return p if p.is_real() else p.re()
    if sort == 'I':
        if not p.is_real():
            p = p.re()
        return T.trunc(p)
    if sort == 'B':
        if p.is_const():
            return ONE if p.const() != 0 else ZERO
        return ONE - T.ind_eq(p)
    raise Unsupported('cast')


def idiv(a, b):
    """floor division of terms"""
    a, b = P_(a), P_(b)
    if b.is_const() and a.is_const():
        if b.const() == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return P_((a.const() / b.const()).__floor__())
    if a.is_int() and b.is_int():
        if b == ONE:
            return a
        if b.is_const():
            c = b.const()
            q = P({m: v / c for m, v in a.d.items() if (v / c).denominator == 1})
            rest = a - q * c
            if q.is_int():
                if rest.is_zero():
                    return q
                if c > 0 and C.CTX is not None and C.CTX.entails_ge(rest) and C.CTX.entails_ge(b - 1 - rest):
                    return q
                return q + T.app('idiv', rest, b, sort='I')
        q, rest = poly_div(a, b)
        if not q.is_zero() and C.CTX is not None and q.is_int():
            if rest.is_zero():
                if not C.CTX.entails_ge(b - 1):
                    return T.app('idiv', a, b, sort='I')
                return q
            if C.CTX.entails_ge(rest) and C.CTX.entails_ge(b - 1 - rest):
                return q
        return T.app('idiv', a, b, sort='I')
    return T.floor(a / b)


def poly_div(a, b):
    """(q, r) with a = q b + r, eliminating the multiples of the leading monomial of b"""
    m = max(b.d, key=lambda m: (sum(e for _, e in m if isinstance(e, int)), m))
    cb, lead = b.d[m], dict(m)
    q = ZERO
    if not lead or not all(isinstance(e, int) and e > 0 for e in lead.values()):
        return q, a
    for _ in range(50):
        t = next((x for x in a.d if all(isinstance(dict(x).get(k), int) and dict(x)[k] >= e for k, e in lead.items())), None)
        if t is None:
            break
        rest = [(k, e - lead.get(k, 0)) for k, e in t]
        f = P({tuple((k, e) for k, e in rest if e != 0): a.d[t] / cb})
        q, a = q + f, a - f * b
    return q, a


def modulo(a, b):
    a, b = P_(a), P_(b)
    if a.is_int() and b.is_int():
        return a - b * idiv(a, b)
    if C.CTX is not None and C.CTX.entails_ge(a) and C.CTX._entails_lt(a - b):
        return a
    if a.is_const() and b.is_const() and b.const() != 0:
        return a - b * P_((a.const() / b.const()).__floor__())
    sg = b.single()
    if sg and sg[0] > 0 and T.nonneg(b):
        q = a / b
        whole = P({m: c for m, c in q.d.items() if c.denominator == 1 and P({m: c}).is_int()})
        return b * T.app('modulo', q - whole, ONE, sort='R', nn=True)
    return T.app('modulo', a, b, sort='R')


def rint(p):
    """round half to even, as a term"""
    if p.is_int():
        return p
    if p.is_const():
        return P_(round(p.const()))
    return T.lift_args(lambda x: x if x.is_int() else T.app('rint', x, sort='I'), [p])


def div(a, b):
    if b.is_const():
        if b.const() == 0:
            raise Unsupported('division by zero')
    else:
        DIVISORS.append((b, list(C.CTX.facts) if C.CTX else []))
    return T.lift_args(lambda y: a * y.pow(-1), [b]) if not b.is_const() else a.scale(1 / b.const())


def _pow(a, b):
    if b.is_const():
        e = b.const()
        if e < 0 and not a.is_const():
            DIVISORS.append((a, list(C.CTX.facts) if C.CTX else []))
        if a.is_const() and a.const() == 0:
            if e > 0:
                return ZERO
            if e == 0:
                return ONE
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
    elif T.nonneg(a) and any(T.atom(i).kind == 'app' and T.atom(i).data[0] == 'log' for m in b.d for i, _ in m):
        from . import npf
        L = npf.log_terms(a)
        t = b * L
        Li = L.pow(-1).single()
        if Li and len(Li[1]) == 1 and all(dict(m).get(Li[1][0][0]) == Li[1][0][1] for m in b.d):
            t = P({tuple(x for x in m if x != Li[1][0]): c / Li[0] for m, c in b.d.items()})
        r = ONE
        for m, c in t.d.items():
            x = P({m: Fr(1)}).as_atom()
            if x is None or x.kind != 'app' or x.data[0] != 'log':
                break
            r = r * x.data[1][0].pow(c)
        else:
            return r
    return T.power(a, b)


def band(a, b):
    return a * b


_OPS = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': div, '//': idiv, '%': modulo,
    '**': _pow, '&': band, '|': lambda a, b: a + b - a * b, '^': lambda a, b: a + b - (a * b).scale(2),
}


FEWEXT = {}       # value of an extremum of few elements -> (which, elements)


def _cmp_p(op, a, b):
    if FEWEXT and op in ('<', '<=', '>', '>='):
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            e = FEWEXT.get(x)
            if e is not None and y not in FEWEXT:
                # min > c iff all > c;  min < c iff not all >= c;  max likewise
                if (e[0] == 'min') == (o[0] == '>'):
                    r = ONE
                    for q in e[1]:
                        r = r * _cmp_p(o, q, y)
                    return r
                n = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[o]
                r = ONE
                for q in e[1]:
                    r = r * _cmp_p(n, q, y)
                return ONE - r
    d = a - b
    if op == '==':
        return T.ind_eq(d)
    if op == '!=':
        return ONE - T.ind_eq(d)
    if op == '<':
        return ONE - T.ind_ge(d)
    if op == '<=':
        return T.ind_ge(-d)
    if op == '>':
        return ONE - T.ind_ge(-d)
    return T.ind_ge(d)


def isb(x):
    return isinstance(x, (bool, _np.bool_)) or (isinstance(x, S) and x.b) or (isinstance(x, Arr) and x.sort == 'B')


def arith(op, a, b):
    if isinstance(a, (Arr, _np.ndarray, Masked)) or isinstance(b, (Arr, _np.ndarray, Masked)):
        return arr_arith(op, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        # numpy scalars broadcast against lists
        return arr_arith(op, as_arr(a), as_arr(b))
    try:
        pa, pb = lift(a), lift(b)
    except Unsupported:
        return NotImplemented
    if op in '&|^':
        if isb(a) and isb(b):
            return mk(_OPS[op](pa, pb), True)
        raise Unsupported('bit operation')
    r = _OPS[op](pa, pb)
    return S(r)


def cmp(op, a, b):
    if isinstance(a, (Arr, _np.ndarray, Masked)) or isinstance(b, (Arr, _np.ndarray, Masked)):
        return arr_cmp(op, a, b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == '==':
            return False
        if op == '!=':
            return True
        raise TypeError('unorderable')
    try:
        pa, pb = lift(a), lift(b)
    except Unsupported:
        return op == '!='
    p = _cmp_p(op, pa, pb)
    return mk(p, True)


# ---------------------------------------------------------------- dimensions
def dim(d):
    """normalise a dimension: int or P"""
    if isinstance(d, S):
        d = d.p
    if isinstance(d, P):
        if d.is_const():
            return int(d.const())
        return d
    return int(d)


def dval(d):
    """dimension as a value for the program"""
    return S(d) if isinstance(d, P) else d


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    q = P_(a) - P_(b)
    if q.is_zero():
        return True
    if C.CTX.lenient:
        return surely(T.ind_eq(q)) or not surely(ONE - T.ind_eq(q))
    return C.CTX.decide_poly(T.ind_eq(q))


def surely(p):
    """is the 0/1 term entailed by the current facts (no fork)"""
    p = C.CTX.simp(P_(p), solve=True)
    return p.is_const() and p.const() == 1


def tsum(lo, hi, f, hint='s'):
    """sum of f(k) for lo <= k < hi"""
    lo, hi = P_(lo), P_(hi)
    n = hi - lo
    if n.is_const() and n.const() <= 40:
        r = ZERO
        for i in range(int(n.const())):
            r = r + f(lo + i)
        return r
    v = T.new_index(hint, lo, hi)
    return T.mk_sum(v, lo, hi, f(P_(v)))


# ---------------------------------------------------------------- arrays
def memo(fn):
    cache = {}

    def g(idx):
        k = (idx, C.CTX.version)
        r = cache.get(k)
        if r is None:
            r = cache[k] = fn(idx)
        return r
    g.raw = fn
    return g


WRITE_HOOK = None        # called with every array written


class Arr:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, shape, fn, sort='R', base=None, imap=None, inv=None):
        self.shape_ = tuple(dim(d) for d in shape)
        self.sort = sort
        self.base, self.imap, self.inv = base, imap, inv
        self.fn = None if base is not None else memo(fn)
        self.serial = serial()
        self.lost = False          # element of a symbolic list made on access: writes would be lost
        self.snapped = False       # the list of its parts has been recorded by value
        self.protected = None      # name of a caller-owned object: writes are violations of the frame condition

    # -- reading
    def reader(self):
        """function idx -> term for the current content"""
        if self.base is None:
            return self.fn
        rb, m = self.base.reader(), self.imap
        return lambda idx: rb(m(idx))

    def at(self, idx):
        return self.reader()(tuple(P_(i) for i in idx))

    @property
    def shape(self):
        return tuple(dval(d) for d in self.shape_)

    @shape.setter
    def shape(self, s):
        raise Unsupported('assignment to shape')

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        p = ONE
        for d in self.shape_:
            p = p * P_(d)
        return mk(p)

    @property
    def dtype(self):
        return DType(self.sort)

    def owner(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        d = self.shape_[0]
        if isinstance(d, int):
            return d
        raise Unsupported('symbolic len')

    def length(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        return dval(self.shape_[0])

    def __repr__(self):
        return f'Arr{self.shape_}:{self.sort}'

    # -- writing
    def write(self, cond, val):
        """store val(idx) where cond(idx) (functions of own indices)"""
        if self.base is not None:
            inv = self.inv
            if inv is None:
                raise Unsupported('write through this view')

            def c2(i):
                g, j = inv(i)
                return ZERO if g.is_zero() else g * cond(j)

            def v2(i):
                g, j = inv(i)
                return ZERO if g.is_zero() else val(j)
            return self.base.write(c2, v2)
        if self.lost:
            raise Unsupported('write to an element of a list of symbolic length')
        if self.snapped:
            raise Unsupported('write to an array whose parts are elements of a list of symbolic length')
        if self.protected is not None:
            C.CTX.log.append(('frame', self.protected))
        if WRITE_HOOK is not None:
            WRITE_HOOK(self)
        old = self.fn
        s = self.sort

        def fn(i):
            c = cond(i)
            if c.is_zero():
                return old(i)
            c = C.CTX.simp(c, solve=True) if not c.is_const() else c
            if c.is_zero():
                return old(i)
            v = cast(val(i), s)
            if c == ONE:
                return v
            return c * v + (ONE - c) * old(i)
        if C.CTX.journal is not None:
            C.CTX.journal.append((self, old))
        self.fn = memo(fn)

    def set_content(self, fn):
        self.fn = memo(fn)

    # -- operators
    def __add__(self, o): return arr_arith('+', self, o)
    def __radd__(self, o): return arr_arith('+', o, self)
    def __sub__(self, o): return arr_arith('-', self, o)
    def __rsub__(self, o): return arr_arith('-', o, self)
    def __mul__(self, o): return arr_arith('*', self, o)
    def __rmul__(self, o): return arr_arith('*', o, self)
    def __truediv__(self, o): return arr_arith('/', self, o)
    def __rtruediv__(self, o): return arr_arith('/', o, self)
    def __floordiv__(self, o): return arr_arith('//', self, o)
    def __rfloordiv__(self, o): return arr_arith('//', o, self)
    def __mod__(self, o): return arr_arith('%', self, o)
    def __rmod__(self, o): return arr_arith('%', o, self)
    def __pow__(self, o): return arr_arith('**', self, o)
    def __rpow__(self, o): return arr_arith('**', o, self)
    def __and__(self, o): return arr_arith('&', self, o)
    def __rand__(self, o): return arr_arith('&', o, self)
    def __or__(self, o): return arr_arith('|', self, o)
    def __ror__(self, o): return arr_arith('|', o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __neg__(self): return emap(lambda p: -p, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return emap(T.absv, self, sort='R' if self.sort == 'C' else self.sort)
    def __invert__(self):
        if self.sort != 'B':
            raise Unsupported('bit inversion')
        return emap(lambda p: ONE - p, self)
    def __eq__(self, o): return arr_cmp('==', self, o)
    def __ne__(self, o): return arr_cmp('!=', self, o)
    def __lt__(self, o): return arr_cmp('<', self, o)
    def __le__(self, o): return arr_cmp('<=', self, o)
    def __gt__(self, o): return arr_cmp('>', self, o)
    def __ge__(self, o): return arr_cmp('>=', self, o)
    __hash__ = None

    def __bool__(self):
        n = self.size
        if isinstance(n, int) and n == 1:
            return bool(S(self.at((ZERO,) * self.ndim), self.sort == 'B'))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def iop(self, op, o):
        """augmented assignment"""
        r = arr_arith(op, self, o)
        if SORTS[r.sort] > SORTS[self.sort]:
            raise TypeError(f'Cannot cast ufunc output from {r.sort} to {self.sort}')
        if len(r.shape_) > self.ndim:
            raise ValueError('non-broadcastable output operand')
        rd = bcast_reader(r, self.shape_)
        self.write(lambda i: ONE, rd)
        return self

    # -- attributes
    @property
    def T(self): return transpose(self)
    @property
    def real(self): return emap(lambda p: p.re(), self, sort='R') if self.sort == 'C' else self
    @property
    def imag(self): return emap(lambda p: p.im(), self, sort='R')
    @property
    def flat(self): return self.reshape(-1)
    def conj(self): return emap(lambda p: p.conj(), self) if self.sort == 'C' else self
    conjugate = conj

    def copy(self, order=None):
        rd = self.reader()
        return Arr(self.shape_, rd, self.sort)

    def astype(self, t, copy=True, **k):
        s = sort_of_dtype(t)
        return emap(lambda p: cast(p, s), self, sort=s)

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        return transpose(self, ax or None)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, ax)

    def reshape(self, *s, order='C'):
        _c_order(order)
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return reshape(self, s)

    def ravel(self, order='C'):
        _c_order(order)
        return reshape(self, (-1,))

    def flatten(self, order='C'):
        _c_order(order)
        return reshape(self, (-1,)).copy()

    def __deepcopy__(self, memo): return self.copy()
    def squeeze(self, axis=None): return squeeze(self, axis)
    def sum(self, axis=None, keepdims=False, **k): return reduce_sum(self, axis, keepdims)
    def mean(self, axis=None, keepdims=False): return reduce_mean(self, axis, keepdims)
    def dot(self, o): return dot(self, o)
    def any(self, axis=None): return reduce_any(self, axis)
    def all(self, axis=None): return reduce_all(self, axis)
    def max(self, axis=None, keepdims=False): return extremum('max', self, axis, keepdims)
    def min(self, axis=None, keepdims=False): return extremum('min', self, axis, keepdims)
    def argmax(self, axis=None): return argext('max', self, axis)
    def argmin(self, axis=None): return argext('min', self, axis)

    def item(self, *a):
        if not a:
            return S(lift(self))
        return self[a if len(a) > 1 else a[0]]

    def tolist(self):
        if not self.shape_:
            return S(self.at(()))
        if not isinstance(self.shape_[0], int):
            return SList(P_(self.shape_[0]), lambda k: self[S(k)])
        return [self[i].tolist() if self.ndim > 1 else self[i] for i in range(self.shape_[0])]

    def fill(self, v):
        p = lift(v)
        self.write(lambda i: ONE, lambda i: p)

    # -- indexing
    def __getitem__(self, spec):
        return getitem(self, spec)

    def __setitem__(self, spec, v):
        setitem(self, spec, v)

    def __iter__(self):
        if not self.shape_:
            raise TypeError('iteration over a 0-d array')
        d = self.shape_[0]
        if not isinstance(d, int):
            raise Unsupported('native iteration over a symbolic dimension')
        return iter([self[i] for i in range(d)])


def _c_order(order):
    if order != 'C':
        raise Unsupported('order of elements')


def wrap0(a):
    """0-d array -> scalar"""
    if isinstance(a, Arr) and not a.shape_:
        return S(a.at(()), a.sort == 'B') if a.sort != 'B' else mk(a.at(()), True)
    return a


def as_arr(x, sort=None):
    """anything array-like -> Arr (no copy of Arr)"""
    if isinstance(x, Arr):
        return x
    if isinstance(x, Masked):
        raise Unsupported('selection of symbolic length')
    if isinstance(x, _np.ndarray):
        y = x.copy()
        s = sort_of_dtype(x.dtype) if x.dtype.kind in 'biufc' else None
        if x.dtype == object:
            return as_arr(x.tolist())
        if s is None:
            raise Unsupported('array of ' + str(x.dtype))

        def fn(idx):
            if all(i.is_const() for i in idx):
                return lift(y[tuple(int(i.const()) for i in idx)])
            return select(idx, y.shape, lambda c: lift(y[c]))
        return Arr(x.shape, fn, s)
    if is_scalar(x):
        p = lift(x)
        return Arr((), lambda i: p, 'B' if isb(x) else ('R' if isinstance(x, (float, _np.floating)) else psort(p)))
    if isinstance(x, SList):
        return x.stack()
    if isinstance(x, (list, tuple, range)):
        items = [as_arr(y) for y in x]
        if not items:
            return Arr((0,), lambda i: ZERO, 'R')
        sh = items[0].shape_
        for it in items[1:]:
            if len(it.shape_) != len(sh) or not all(same_dim(a, b) for a, b in zip(it.shape_, sh)):
                raise ValueError('setting an array element with a sequence (inhomogeneous shape)')
        rds = [it.reader() for it in items]

        def fn(idx):
            return pick(idx[0], len(rds), lambda c: rds[c](idx[1:]))
        return Arr((len(items),) + sh, fn, jsort(*[i.sort for i in items]))
    if isinstance(x, P):
        return as_arr(S(x))
    if isinstance(x, SIter):
        return x.as_list().stack()
    raise Unsupported(f'array from {type(x).__name__}')


def pick(i, n, f):
    """f(i) for an index term i in [0, n), n concrete"""
    if i.is_const():
        c = int(i.const())
        return f(c)
    r = ZERO
    for c in range(n):
        g = T.ind_eq(i - c)
        if g.is_zero():
            continue
        r = r + g * f(c)
    return r


def select(idx, shape, f):
    def rec(d, pre):
        if d == len(shape):
            return f(tuple(pre))
        return pick(idx[d], shape[d], lambda c: rec(d + 1, pre + [c]))
    return rec(0, [])


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            e = s[k]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = e
                continue
            if same_dim(cur, e):
                if isinstance(e, int):
                    cur = e
                continue
            if isinstance(e, P) and same_dim(e, 1):
                continue
            if isinstance(cur, P) and same_dim(cur, 1):
                cur = e
                continue
            raise ValueError(f'operands could not be broadcast together {cur} {e}')
        out.append(cur)
    return tuple(out)


def bcast_reader(a, shape):
    """reader of a broadcast to shape"""
    rd = a.reader()
    off = len(shape) - a.ndim
    ones = [isinstance(d, int) and d == 1 and not (isinstance(shape[off + k], int) and shape[off + k] == 1)
            or (isinstance(d, P) and not _same_struct(d, shape[off + k]) and _known_one(d, shape[off + k]))
            for k, d in enumerate(a.shape_)]

    def f(idx):
        return rd(tuple(ZERO if o else i for o, i in zip(ones, idx[off:])))
    return f


def _same_struct(a, b):
    return (P_(a) - P_(b)).is_zero()


def _known_one(d, s):
    return surely(T.ind_eq(P_(d) - 1))


def emap(f, a, sort=None):
    """elementwise map of one array or scalar"""
    if isinstance(a, Rows):
        return Rows(a.rows, as_arr(emap(f, a.arr, sort)))
    if isinstance(a, Masked):
        return Masked(a.shape_, lambda i, rd=a.val: f(rd(i)), a.mask, sort or a.sort)
    if not isinstance(a, Arr):
        if is_scalar(a):
            p = f(lift(a))
            return mk(p, True) if sort == 'B' else S(p)
        a = as_arr(a)
    rd = a.reader()
    return Arr(a.shape_, lambda i: f(rd(i)), sort or a.sort)


def eapply(f, *args, sort=None):
    """elementwise application with broadcasting"""
    if any(isinstance(a, Masked) for a in args):
        return masked_apply(f, args, sort)
    if not any(isinstance(a, (Arr, _np.ndarray, list, tuple, SList)) for a in args):
        p = f(*[lift(a) for a in args])
        return mk(p, True) if sort == 'B' else S(p)
    arrs = [as_arr(a) for a in args]
    shape = bshape(*[a.shape_ for a in arrs])
    rds = [bcast_reader(a, shape) for a in arrs]
    s = sort or jsort(*[a.sort for a in arrs])
    return wrap0(Arr(shape, lambda i: f(*[r(i) for r in rds]), s))


def _sort_arith(op, a, b):
    if op == '/':
        return jsort('R', a, b)
    if op in '&|^':
        return jsort(a, b)
    return jsort('I', a, b)


def arr_arith(op, a, b):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return masked_apply(_OPS[op], (a, b), None)
    if a is None or b is None:
        raise TypeError('unsupported operand type')
    a, b = as_arr(a), as_arr(b)
    s = _sort_arith(op, a.sort, b.sort)
    if op == '**' and a.sort == 'I' and b.sort == 'I':
        if b.ndim == 0:
            q = b.at(())
            if q.is_const() and q.const() < 0:
                raise ValueError('Integers to negative integer powers are not allowed.')
    if op in '+-*' and a.sort == 'B' and b.sort == 'B':
        s = 'B'
        if op == '+':
            return eapply(_OPS['|'], a, b, sort='B')
        if op == '-':
            raise TypeError('numpy boolean subtract')
    return as_arr(eapply(_OPS[op], a, b, sort=s)) if (a.ndim or b.ndim) else eapply(_OPS[op], a, b, sort=s)


def arr_cmp(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == '==':
            return False
        if op == '!=':
            return True
        raise TypeError('unorderable')
    return eapply(lambda x, y: _cmp_p(op, x, y), a, b, sort='B')


# ---------------------------------------------------------------- boolean selections
class Masked:
    """a[mask]: the selected elements, addressed by their position in a"""
    def __init__(self, shape, val, mask, sort):
        self.shape_, self.val, self.mask, self.sort = shape, val, mask, sort

    def count(self):
        idx = [T.new_index('m', 0, P_(d)) for d in self.shape_]
        return nsum(self.shape_, self.mask)

    @property
    def size(self):
        return mk(self.count())

    def sum(self, axis=None):
        return S(nsum(self.shape_, lambda i: self.mask(i) * self.val(i)))

    def __getitem__(self, spec):
        return as_rows(self)[spec]

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __mod__(self, o): return arith('%', self, o)
    def __neg__(self): return emap(lambda p: -p, self)
    def __gt__(self, o): return masked_apply(lambda x, y: _cmp_p('>', x, y), (self, o), 'B')
    def __lt__(self, o): return masked_apply(lambda x, y: _cmp_p('<', x, y), (self, o), 'B')


def nsum(shape, f, pre=()):
    if not shape:
        return f(tuple(pre))
    return tsum(0, P_(shape[0]), lambda k: nsum(shape[1:], f, tuple(pre) + (k,)))


class Rows(Masked):
    """a[mask] with a mask of the first dimension: the selected rows, addressed by their position in a"""
    def __init__(self, mask, arr):
        self.rows, self.arr = mask, arr
        Masked.__init__(self, arr.shape_, arr.reader(), lambda i: mask(i[:1]), arr.sort)

    def __getitem__(self, spec):
        sp = spec if isinstance(spec, tuple) else (spec,)
        if not sp or not (isinstance(sp[0], slice) and sp[0] == slice(None)):
            raise Unsupported('index into a selection')
        return Rows(self.rows, as_arr(self.arr[spec]))

    def sum(self, axis=None, keepdims=False):
        if axis is None:
            return Masked.sum(self)
        ax = axis % self.arr.ndim
        if ax == 0:
            a, mask, rd = self.arr, self.rows, self.arr.reader()
            r = Arr(a.shape_[1:], lambda i: tsum(ZERO, P_(a.shape_[0]), lambda q: mask((q,)) * rd((q,) + tuple(i))), jsort('I', a.sort))
            return as_arr(r[None]) if keepdims else wrap0(r)
        return Rows(self.rows, as_arr(reduce_sum(self.arr, ax, keepdims)))


def as_rows(a):
    if isinstance(a, Rows):
        return a
    if len(a.shape_) != 1:
        raise Unsupported('different selections')
    return Rows(a.mask, Arr(a.shape_, a.val, a.sort))


def rows_apply(f, args, sort):
    rs = [as_rows(a) for a in args if isinstance(a, Masked)]
    i0 = (P_(T.new_index('q', 0, P_(rs[0].shape_[0]))),)
    for r in rs[1:]:
        if not same_dim(r.shape_[0], rs[0].shape_[0]) or not (r.rows(i0) - rs[0].rows(i0)).is_zero():
            raise Unsupported('selections by different masks')
    nd = max(r.arr.ndim for r in rs)
    if any(r.arr.ndim != nd for r in rs):
        raise Unsupported('selections of different dimension')
    full = []
    for a in args:
        if isinstance(a, Masked):
            full.append(as_rows(a).arr)
        elif is_scalar(a):
            full.append(a)
        else:
            x = as_arr(a)
            if x.ndim >= nd and not (isinstance(x.shape_[-nd], int) and x.shape_[-nd] == 1):
                raise Unsupported('selection combined with an array')
            full.append(x)
    return Rows(rs[0].rows, as_arr(eapply(f, *full, sort=sort)))


def masked_apply(f, args, sort):
    if any(isinstance(a, Rows) for a in args):
        return rows_apply(f, args, sort)
    ms = [a for a in args if isinstance(a, Masked)]
    m0 = ms[0]
    iv = tuple(P_(T.new_index('q', 0, P_(d))) for d in m0.shape_)
    t0 = m0.mask(iv)
    for m in ms[1:]:
        if len(m.shape_) != len(m0.shape_) or not (m.mask(iv) - t0).is_zero():
            raise Unsupported('selections by different masks')
    fs = []
    for a in args:
        if isinstance(a, Masked):
            fs.append(a.val)
        elif is_scalar(a):
            fs.append(lambda i, p=lift(a): p)
        else:
            raise Unsupported('selection combined with an array')
    s = sort or jsort(*[a.sort if isinstance(a, Masked) else psort(lift(a)) for a in args])
    return Masked(m0.shape_, lambda i: f(*[g(i) for g in fs]), m0.mask, s)


class Where:
    """np.where(mask) of a 1-D mask: positions"""
    def __init__(self, shape, mask):
        self.shape_, self.mask = shape, mask


# ---------------------------------------------------------------- indexing
class Ix:
    """one processed index entry"""
    __slots__ = ('kind', 'lo', 'step', 'n', 'arr', 'd')

    def __init__(self, kind, **k):
        self.kind = kind
        self.lo = self.step = self.n = self.arr = self.d = None
        for a, b in k.items():
            setattr(self, a, b)


def norm_int(e, d):
    """integer index into a dimension of size d -> nonnegative term"""
    p = lift(e)
    if not p.is_int():
        raise IndexError('only integers, slices ... are valid indices')
    if p.is_const():
        c = int(p.const())
        if isinstance(d, int):
            if c < -d or c >= d:
                raise IndexError(f'index {c} is out of bounds for axis with size {d}')
            return P_(c % d) if c < 0 else p
        if c < 0:
            if not C.CTX.entails_ge(P_(d) + c):
                if not C.CTX.decide_poly(T.ind_ge(P_(d) + c)):
                    raise IndexError('index out of bounds')
            return P_(d) + c
        if not C.CTX.entails_ge(P_(d) - 1 - c):
            if not C.CTX.decide_poly(T.ind_ge(P_(d) - 1 - c)):
                raise IndexError('index out of bounds')
        return p
    if C.CTX.lenient:
        return p
    if not C.CTX.entails_ge(p):
        if C.CTX.decide_poly(T.ind_ge(p)):
            pass
        else:
            p = p + P_(d)
            if not C.CTX.decide_poly(T.ind_ge(p)):
                raise IndexError('index out of bounds')
    if not C.CTX.entails_ge(P_(d) - 1 - p):
        if not C.CTX.decide_poly(T.ind_ge(P_(d) - 1 - p)):
            raise IndexError('index out of bounds')
    return p


def _clip_bound(b, d):
    """slice bound b (term) relative to a dimension d"""
    d = P_(d)
    if b.is_const() and d.is_const():
        v = b.const()
        if v < 0:
            v = max(v + d.const(), Fr(0))
        return P_(min(v, d.const()))
    if C.CTX.lenient and not b.is_const():
        return b
    if not C.CTX.entails_ge(b):
        if not (b.is_const() and b.const() < 0) and C.CTX.decide_poly(T.ind_ge(b)):
            pass
        else:
            b = b + d
            if not C.CTX.entails_ge(b) and not C.CTX.decide_poly(T.ind_ge(b)):
                b = ZERO
    if not C.CTX.entails_ge(d - b):
        if not C.CTX.decide_poly(T.ind_ge(d - b)):
            b = d
    return b


def norm_slice(s, d):
    step = 1 if s.step is None else lift(s.step)
    if isinstance(step, P):
        if not step.is_const():
            raise Unsupported('symbolic slice step')
        step = int(step.const())
    for e in (s.start, s.stop):
        if e is not None and not lift(e).is_int():
            raise TypeError('slice indices must be integers or None or have an __index__ method')
    if step > 0:
        lo = ZERO if s.start is None else _clip_bound(lift(s.start), d)
        hi = P_(d) if s.stop is None else _clip_bound(lift(s.stop), d)
        n = hi - lo
        if C.CTX.lenient and not n.is_const():
            return lo, step, n if step == 1 else idiv(n + (step - 1), P_(step))
        if n.is_const():
            n = P_(max(0, -((-n.const()) // step)))
        else:
            if not C.CTX.entails_ge(n) and not C.CTX.decide_poly(T.ind_ge(n)):
                n = ZERO
            elif step != 1:
                n = idiv(n + (step - 1), P_(step))
        return lo, step, n
    if step == -1 and s.start is None and s.stop is None:
        return P_(d) - 1, -1, P_(d)
    if step == -1:
        lo = P_(d) - 1 if s.start is None else lift(s.start)
        hi = P_(-1) if s.stop is None else lift(s.stop)
        for e in (lo, hi):
            if e.is_const() and e.const() < 0 and e is not hi:
                raise Unsupported('negative bound with negative step')
        n = lo - hi
        if surely(T.ind_ge(n)) and surely(T.ind_ge(P_(d) - 1 - lo)) and surely(T.ind_ge(hi + 1)):
            return lo, -1, n
    raise Unsupported('slice with negative step')


def expand_spec(a, spec):
    if not isinstance(spec, tuple):
        spec = (spec,)
    spec = list(spec)
    n = 0
    for e in spec:
        if e is None or e is Ellipsis:
            continue
        if isinstance(e, (Arr, _np.ndarray)) and (e.dtype == bool if isinstance(e, _np.ndarray) else e.sort == 'B'):
            n += e.ndim
        else:
            n += 1
    if n > a.ndim:
        raise IndexError('too many indices for array')
    el = [k for k, e in enumerate(spec) if e is Ellipsis]
    fill = [slice(None)] * (a.ndim - n)
    if el:
        spec[el[0]:el[0] + 1] = fill
    else:
        spec += fill
    return spec


DELETE = [None]         # (array, start, count, axis) -> array without that run of indices


def getitem(a, spec):
    if isinstance(spec, Where) or (isinstance(spec, tuple) and len(spec) == 1 and isinstance(spec[0], Where)):
        w = spec if isinstance(spec, Where) else spec[0]
        if len(w.shape_) == 1 and a.ndim == 1:
            return Masked(a.shape_, a.reader(), w.mask, a.sort)
        raise Unsupported('selection')
    if isinstance(spec, SList):
        spec = spec.stack()
    elif isinstance(spec, tuple):
        spec = tuple(e.stack() if isinstance(e, SList) else e for e in spec)
    sp = expand_spec(a, spec)
    if any(isinstance(e, (Arr, _np.ndarray)) and e.ndim and (e.sort if isinstance(e, Arr) else 'B' if e.dtype == bool else 'I') == 'B'
           or isinstance(e, list) and e and all(isb(x) for x in e) for e in sp):
        if len(sp) == 1 or (isinstance(sp[0], (Arr, _np.ndarray)) and sp[0].ndim == a.ndim):
            m = as_arr(sp[0])
            for x, y in zip(m.shape_, a.shape_):
                if not same_dim(x, y):
                    raise IndexError('boolean index did not match')
            return Masked(a.shape_, a.reader(), m.reader(), a.sort)
        m = as_arr(sp[0]) if isinstance(sp[0], (Arr, _np.ndarray, list)) else None
        if m is not None and m.ndim == 1 and a.ndim > 1 and m.sort == 'B':
            if not same_dim(m.shape_[0], a.shape_[0]):
                raise IndexError('boolean index did not match')
            return Rows(m.reader(), as_arr(getitem(a, tuple([slice(None)] + list(sp[1:])))).copy())
        at = [k for k, e in enumerate(sp) if not (isinstance(e, slice) and e == slice(None))]
        if len(at) == 1:
            m = as_arr(sp[at[0]])
            run = excluded_run(m) if m.ndim == 1 and same_dim(m.shape_[0], a.shape_[at[0]]) else None
            if run is not None:
                if run[1].is_zero():
                    return a.copy()
                return DELETE[0](a, run[0], run[1], at[0])
        raise Unsupported('boolean index')
    adv = [k for k, e in enumerate(sp) if isinstance(e, (Arr, _np.ndarray, list, SList, tuple))
           and not (isinstance(e, (Arr, _np.ndarray)) and e.ndim == 0)]
    if adv:
        return adv_get(a, sp)
    shape, imap, inv = basic(a, sp)
    if not shape and not any(e is None or isinstance(e, slice) for e in sp):
        p = a.at(imap(()))
        return mk(p, True) if a.sort == 'B' else S(p) if a.sort != 'I' else S(p)
    return Arr(shape, None, a.sort, base=a, imap=imap, inv=inv)


def basic(a, sp):
    """(shape, imap, inv) of a basic index"""
    shape, plan = [], []
    d = 0
    for e in sp:
        if e is None:
            shape.append(1)
            plan.append(('new',))
        elif isinstance(e, slice):
            lo, step, n = norm_slice(e, a.shape_[d])
            shape.append(dim(n))
            plan.append(('sl', lo, step, n, a.shape_[d]))
            d += 1
        else:
            plan.append(('int', norm_int(e, a.shape_[d])))
            d += 1

    def imap(idx):
        out, k = [], 0
        for q in plan:
            if q[0] == 'new':
                k += 1
            elif q[0] == 'sl':
                out.append(q[1] + idx[k].scale(q[2]) if not (q[1].is_zero() and q[2] == 1) else idx[k])
                k += 1
            else:
                out.append(q[1])
        return tuple(out)

    def inv(i):
        g, out, k = ONE, [], 0
        for q in plan:
            if q[0] == 'new':
                out.append(ZERO)
                continue
            x = i[k]
            k += 1
            if q[0] == 'int':
                g = g * T.ind_eq(x - q[1])
            else:
                lo, step, n, dd = q[1:]
                if step == 1:
                    if not lo.is_zero():
                        g = g * T.ind_ge(x - lo)
                    if not (lo + n - P_(dd)).is_zero():
                        g = g * T.ind_ge(lo + n - 1 - x)
                    out.append(x - lo)
                elif step == -1:
                    out.append(lo - x)
                    if not (n - P_(dd)).is_zero():
                        g = g * T.ind_ge(lo - x) * T.ind_ge(x - (lo - n + 1))
                else:
                    if not lo.is_zero():
                        g = g * T.ind_ge(x - lo)
                    g = g * T.ind_eq(modulo(x - lo, P_(step)))
                    out.append(idiv(x - lo, P_(step)))
                    g = g * T.ind_ge(n - 1 - idiv(x - lo, P_(step))) if not _covers(n, lo, step, dd) else g
            if g.is_zero():
                return g, None
        return g, tuple(out)
    return tuple(shape), imap, inv


def _covers(n, lo, step, d):
    """slice lo::step runs to the end of the dimension"""
    return (n - idiv(P_(d) - lo + (step - 1), P_(step))).is_zero()


def _adv_plan(a, sp):
    items = []
    d = 0
    for e in sp:
        if e is None:
            items.append(('new',))
        elif isinstance(e, slice):
            items.append(('sl',) + norm_slice(e, a.shape_[d]) + (a.shape_[d],))
            d += 1
        elif is_scalar(e) or (isinstance(e, (Arr, _np.ndarray)) and e.ndim == 0):
            items.append(('adv', as_arr(S(norm_int(e, a.shape_[d]))), a.shape_[d]))
            d += 1
        else:
            ix = as_arr(e)
            if ix.sort != 'I':
                if isinstance(ix.size, int) and ix.size == 0:
                    ix = Arr(ix.shape_, lambda i: ZERO, 'I')
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            items.append(('adv', ix, a.shape_[d]))
            d += 1
    advpos = [k for k, q in enumerate(items) if q[0] == 'adv']
    ash = bshape(*[items[k][1].shape_ for k in advpos])
    rds = {k: bcast_reader(items[k][1], ash) for k in advpos}
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    first = advpos[0] if contiguous else -1
    shape, layout = [], []       # layout: which out dims feed which item
    if not contiguous:
        shape += list(ash)
    for k, q in enumerate(items):
        if contiguous and k == first:
            apos = len(shape)
            shape += list(ash)
        if q[0] == 'new':
            layout.append((k, len(shape)))
            shape.append(1)
        elif q[0] == 'sl':
            layout.append((k, len(shape)))
            shape.append(dim(q[3]))
    if not contiguous:
        apos = 0
    return items, advpos, ash, rds, dict(layout), apos, tuple(shape)


def wrap_index(p, d):
    """value of an index array element: nonnegative"""
    if p.is_const():
        c = int(p.const())
        if c >= 0:
            return p
        return P_(d) + c
    if C.CTX.entails_ge(p):
        return p
    g = T.ind_ge(p)
    return p + (ONE - g) * P_(d)


def adv_get(a, sp):
    items, advpos, ash, rds, layout, apos, shape = _adv_plan(a, sp)
    rd = a.reader()
    na = len(ash)

    def fn(idx):
        ai = idx[apos:apos + na]
        out = []
        for k, q in enumerate(items):
            if q[0] == 'new':
                continue
            if q[0] == 'sl':
                out.append(q[1] + idx[layout[k]].scale(q[2]))
            else:
                out.append(wrap_index(rds[k](ai), q[2]))
        return T.lift_args(lambda *o: rd(tuple(o)), out)
    return Arr(shape, fn, a.sort)


def setitem(a, spec, v):
    if isinstance(spec, Where) or (isinstance(spec, tuple) and len(spec) == 1 and isinstance(spec[0], Where)):
        w = spec if isinstance(spec, Where) else spec[0]
        spec = Arr(w.shape_, w.mask, 'B')
    sp = expand_spec(a, spec)
    m = sp[0] if sp else None
    if isinstance(m, (Arr, _np.ndarray)) and m.ndim and (m.sort == 'B' if isinstance(m, Arr) else m.dtype == bool):
        m = as_arr(m)
        mr = m.reader()
        rest = sp[1:]
        if any(not (isinstance(e, slice) and e == slice(None)) for e in rest):
            raise Unsupported('boolean index with other indices')
        nm = m.ndim
        for x, y in zip(m.shape_, a.shape_):
            if not same_dim(x, y):
                raise IndexError('boolean index did not match')
        if isinstance(v, Rows):
            iv = (P_(T.new_index('q', 0, P_(a.shape_[0]))),)
            if nm != 1 or not (v.rows(iv) - mr(iv)).is_zero():
                raise Unsupported('selections by different masks')
            r = bcast_reader(v.arr, a.shape_)
            a.write(lambda i: mr(i[:1]), lambda i: r(i))
            return
        if isinstance(v, Masked):
            iv = tuple(P_(T.new_index('q', 0, P_(d))) for d in a.shape_[:nm])
            if not (v.mask(iv) - mr(iv)).is_zero():
                raise Unsupported('selections by different masks')
            vv = v.val
            a.write(lambda i: mr(i[:nm]), lambda i: vv(i))
            return
        va = as_arr(v)
        if va.ndim == 0:
            p = va.at(())
            a.write(lambda i: mr(i[:nm]), lambda i: p)
            return
        if va.ndim <= a.ndim - nm:
            r = bcast_reader(va, a.shape_[nm:])
            a.write(lambda i: mr(i[:nm]), lambda i: r(i[nm:]))
            return
        raise Unsupported('boolean assignment of an array')
    if isinstance(v, Masked):
        raise Unsupported('assignment of a selection')
    adv = [k for k, e in enumerate(sp) if isinstance(e, (Arr, _np.ndarray, list, tuple, SList))
           and not (isinstance(e, (Arr, _np.ndarray)) and e.ndim == 0)]
    if adv:
        return adv_set(a, sp, v)
    shape, imap, inv = basic(a, sp)
    va = as_arr(v)
    while va.ndim > len(shape) and va.shape_[0] == 1:
        va = va[0] if va.ndim > 1 else as_arr(S(va.at((ZERO,))))
    if va.ndim > len(shape):
        raise ValueError('could not broadcast input array')
    for k, d in enumerate(va.shape_):
        t = shape[len(shape) - va.ndim + k]
        if isinstance(d, int) and d == 1:
            continue
        if not same_dim(d, t):
            raise ValueError(f'could not broadcast input array from shape {va.shape_} into shape {shape}')
    r = bcast_reader(va, shape)

    def cond(i):
        return inv(i)[0]

    def val(i):
        g, j = inv(i)
        return ZERO if j is None else r(j)
    a.write(cond, val)


def adv_set_line(a, items, advpos, ash, rds, layout, apos, shape, r):
    """assignment through index arrays of one symbolic length, one of which is start, start+1, ..: cell x of that axis
    is written by element x - start"""
    if len(ash) != 1:
        raise Unsupported('assignment through an index array of symbolic length')
    n = P_(ash[0])
    x = T.new_index('x', 0, n)
    lead = None
    for k in advpos:
        start = wrap_index(rds[k]((ZERO,)), items[k][2])
        if (wrap_index(rds[k]((P_(x),)), items[k][2]) - start - P_(x)).is_zero():
            lead = (k, start)
            break
    if lead is None:
        raise Unsupported('assignment through an index array of symbolic length')
    whole = lead[1].is_zero() and (n - P_(items[lead[0]][2])).is_zero()

    def inv(i):
        g, out, d, t = ONE, {}, 0, None
        pos = {}
        for k, q in enumerate(items):
            if q[0] == 'new':
                out[layout[k]] = ZERO
                continue
            pos[k] = i[d]
            d += 1
        t = pos[lead[0]] - lead[1]
        if not whole:
            g = T.ind_ge(t) * T.ind_ge(n - 1 - t)
        for k, q in enumerate(items):
            if q[0] == 'adv' and k != lead[0]:
                g = g * T.ind_eq(pos[k] - wrap_index(rds[k]((t,)), q[2]))
            elif q[0] == 'sl':
                lo, step, nn, dd = q[1:]
                if step != 1:
                    raise Unsupported('stepped slice with index array')
                if not lo.is_zero():
                    g = g * T.ind_ge(pos[k] - lo)
                if not (lo + nn - P_(dd)).is_zero():
                    g = g * T.ind_ge(lo + nn - 1 - pos[k])
                out[layout[k]] = pos[k] - lo
        full = [None] * len(shape)
        for k, p in out.items():
            full[k] = p
        full[apos] = t
        return g, tuple(full)
    a.write(lambda i: inv(i)[0], lambda i: r(inv(i)[1]))


def excluded_run(m):
    """(start, count) if the mask is false exactly on one contiguous run of indices, or None"""
    x = T.new_index('x', 0, P_(m.shape_[0]))
    g = ONE - m.at((P_(x),))
    if g.is_zero():
        return ZERO, ZERO
    one = g.single()
    if one is None or one[0] != 1:
        return None
    lo, hi = ZERO, P_(m.shape_[0]) - 1
    for a, e in one[1]:
        A = T.atom(a)
        if e != 1 or A.kind != 'ind':
            return None
        q = A.data[1]
        c = q.coeff_of(x.id) if hasattr(q, 'coeff_of') else None
        c = T.subs(q, {x.id: ONE}) - T.subs(q, {x.id: ZERO})
        rest = T.subs(q, {x.id: ZERO})
        if not (q - rest - c * P_(x)).is_zero() or c not in (ONE, -ONE):
            return None
        if A.data[0] == 'eq':
            lo = hi = -rest if c == ONE else rest
        elif A.data[0] == 'ge':
            if c == ONE:
                if not lo.is_zero():
                    return None
                lo = -rest
            else:
                hi = rest
        else:
            return None
    return lo, hi - lo + 1


def adv_set(a, sp, v):
    items, advpos, ash, rds, layout, apos, shape = _adv_plan(a, sp)
    n = ONE
    for d in ash:
        n = n * P_(d)
    r = bcast_reader(as_arr(v), shape)
    if not n.is_const() or n.const() > 64:
        return adv_set_line(a, items, advpos, ash, rds, layout, apos, shape, r)
    from itertools import product
    for ai in product(*[range(d) for d in ash]):
        aip = tuple(P_(x) for x in ai)
        want = {k: wrap_index(rds[k](aip), items[k][2]) for k in advpos}

        def inv(i, want=want, aip=aip):
            g, out, d = ONE, {}, 0
            for k, q in enumerate(items):
                if q[0] == 'new':
                    out[layout[k]] = ZERO
                    continue
                x = i[d]
                d += 1
                if q[0] == 'adv':
                    g = g * T.ind_eq(x - want[k])
                else:
                    lo, step, nn, dd = q[1:]
                    if step != 1:
                        raise Unsupported('stepped slice with index array')
                    if not lo.is_zero():
                        g = g * T.ind_ge(x - lo)
                    if not (lo + nn - P_(dd)).is_zero():
                        g = g * T.ind_ge(lo + nn - 1 - x)
                    out[layout[k]] = x - lo
            full = [None] * len(shape)
            for k, p in out.items():
                full[k] = p
            for k, p in enumerate(aip):
                full[apos + k] = p
            return g, tuple(full)
        a.write(lambda i, inv=inv: inv(i)[0], lambda i, inv=inv: r(inv(i)[1]))


# ---------------------------------------------------------------- shape manipulation
def transpose(a, axes=None):
    a = as_arr(a)
    n = a.ndim
    axes = tuple(range(n))[::-1] if axes is None else tuple(x % n for x in axes)
    pos = {ax: k for k, ax in enumerate(axes)}
    return Arr([a.shape_[x] for x in axes], None, a.sort, base=a,
               imap=lambda idx: tuple(idx[pos[d]] for d in range(n)),
               inv=lambda i: (ONE, tuple(i[x] for x in axes)))


def prod_dims(ds):
    p = ONE
    for d in ds:
        p = p * P_(d)
    return p


def reshape(a, s):
    a = as_arr(a)
    s = [lift(x) for x in s]
    total = prod_dims(a.shape_)
    if any(x.is_const() and x.const() == -1 for x in s):
        rest = prod_dims([x for x in s if not (x.is_const() and x.const() == -1)])
        q = total / rest
        if not q.is_int():
            one = lambda x: ONE if C.CTX.simp(T.ind_eq(x - 1), solve=True) == ONE else x
            s = [x if x.is_const() else one(x) for x in s]
            total = prod_dims([one(P_(d)) for d in a.shape_])
            rest = prod_dims([x for x in s if not (x.is_const() and x.const() == -1)])
            q = total / rest
        if not q.is_int():
            # concrete or divisible
            if total.is_const() and rest.is_const():
                raise ValueError('cannot reshape')
            raise Unsupported(f'reshape with unknown divisibility: {total} / {rest}')
        s = [q if x.is_const() and x.const() == -1 else x for x in s]
    if not same_dim(dim(prod_dims(s)), dim(total)):
        raise ValueError('cannot reshape array')
    new = tuple(dim(x) for x in s)
    # common cases: add / remove unit axes, flatten, split of leading axis
    src = [k for k, d in enumerate(a.shape_) if not (isinstance(d, int) and d == 1)]
    dst = [k for k, d in enumerate(new) if not (isinstance(d, int) and d == 1)]
    if len(src) == len(dst) and all(_same_struct(a.shape_[i], new[j]) for i, j in zip(src, dst)):
        def imap(idx):
            out = [ZERO] * a.ndim
            for i, j in zip(src, dst):
                out[i] = idx[j]
            return tuple(out)

        def inv(i):
            out = [ZERO] * len(new)
            for x, j in zip(src, dst):
                out[j] = i[x]
            return ONE, tuple(out)
        return Arr(new, None, a.sort, base=a, imap=imap, inv=inv)

    def unflat(f, shape):
        out = []
        for d in reversed(shape[1:]):
            q = idiv(f, P_(d))
            out.append(f - q * P_(d))
            f = q
        out.append(f)
        return tuple(reversed(out))

    def flat(idx, shape):
        f = ZERO
        for i, d in zip(idx, shape):
            f = f * P_(d) + i
        return f
    osh = a.shape_
    return Arr(new, None, a.sort, base=a, imap=lambda idx: unflat(flat(idx, new), osh),
               inv=lambda i: (ONE, unflat(flat(i, osh), new)))


def squeeze(a, axis=None):
    if not isinstance(a, Arr):
        return a
    if axis is None:
        drop = []
        for k, d in enumerate(a.shape_):
            if isinstance(d, int):
                if d == 1:
                    drop.append(k)
            elif C.CTX.decide_poly(T.ind_eq(P_(d) - 1)):
                drop.append(k)
    else:
        axis = axis if isinstance(axis, (tuple, list)) else (axis,)
        drop = [x % a.ndim for x in axis]
        for x in drop:
            if not same_dim(a.shape_[x], 1):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    if not drop:
        return a
    keep = [k for k in range(a.ndim) if k not in drop]

    def imap(idx):
        out = [ZERO] * a.ndim
        for i, k in zip(idx, keep):
            out[k] = i
        return tuple(out)
    r = Arr([a.shape_[k] for k in keep], None, a.sort, base=a, imap=imap,
            inv=lambda i: (ONE, tuple(i[k] for k in keep)))
    return r


def expand_dims(a, axis):
    a = as_arr(a)
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    n = a.ndim + len(ax)
    ax = [x % n for x in ax]
    spec = [None if k in ax else slice(None) for k in range(n)]
    return getitem(a, tuple(spec))


def concatenate(xs, axis=0):
    xs = [as_arr(x) for x in (xs.tolist() if isinstance(xs, Arr) else xs)]
    n = xs[0].ndim
    if n == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis %= n
    for x in xs[1:]:
        if x.ndim != n:
            raise ValueError('all the input array dimensions must match')
        for k in range(n):
            if k != axis and not same_dim(x.shape_[k], xs[0].shape_[k]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    offs = [ZERO]
    for x in xs:
        offs.append(offs[-1] + P_(x.shape_[axis]))
    rds = [x.reader() for x in xs]
    shape = list(xs[0].shape_)
    shape[axis] = dim(offs[-1])
    live = [k for k in range(len(xs)) if not (isinstance(xs[k].shape_[axis], int) and xs[k].shape_[axis] == 0)]

    def fn(idx):
        i = idx[axis]
        r = ZERO
        for k in live:
            g = ONE
            if k != live[0]:
                g = g * T.ind_ge(i - offs[k])
            if k != live[-1]:
                g = g * T.ind_ge(offs[k + 1] - 1 - i)
            if not g.is_const():
                g = C.CTX.simp(g, solve=True)
            if g.is_zero():
                continue
            r = r + g * rds[k](idx[:axis] + (i - offs[k],) + idx[axis + 1:])
        return r
    return Arr(shape, fn, jsort(*[x.sort for x in xs]))


def stack(xs, axis=0):
    if isinstance(xs, SList):
        a = xs.stack()
        if axis:
            ax = list(range(1, a.ndim))
            ax.insert(axis % a.ndim, 0)
            a = transpose(a, ax)
        return a
    xs = [as_arr(x) for x in xs]
    axis = axis % (xs[0].ndim + 1)
    return concatenate([expand_dims(x, axis) for x in xs], axis)


# ---------------------------------------------------------------- reductions and products
def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(x % a.ndim for x in axis)
    ax = int(axis)
    if ax < -a.ndim or ax >= a.ndim:
        raise ValueError('axis out of bounds')
    return [ax % a.ndim]


def reduce_with(a, axis, keepdims, sort, red):
    """red(list of dims, function of the reduced indices) -> term"""
    ax = _axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in ax]
    rd = a.reader()
    dims = [a.shape_[k] for k in ax]

    def fn(idx):
        if keepdims:
            idx = tuple(idx[k] for k in keep)

        def g(ri):
            full = [None] * a.ndim
            for k, p in zip(keep, idx):
                full[k] = p
            for k, p in zip(ax, ri):
                full[k] = p
            return rd(tuple(full))
        return red(dims, g)
    shape = [a.shape_[k] for k in keep] if not keepdims else [1 if k in ax else a.shape_[k] for k in range(a.ndim)]
    return wrap0(Arr(shape, fn, sort))


def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(a, Masked):
        return a.sum() if axis is None or not isinstance(a, Rows) else a.sum(axis, keepdims)
    a = as_arr(a)
    return reduce_with(a, axis, keepdims, jsort('I', a.sort), lambda dims, g: nsum(tuple(dims), g))


def reduce_mean(a, axis=None, keepdims=False):
    a = as_arr(a)
    return reduce_with(a, axis, keepdims, jsort('R', a.sort),
                       lambda dims, g: div(nsum(tuple(dims), g), prod_dims(dims)))


def reduce_prod(a, axis=None, keepdims=False):
    a = as_arr(a)

    def red(dims, g):
        r = ONE
        if len(dims) == 1 and not isinstance(dims[0], int):
            v = T.new_index('p', 0, dims[0])
            return T.mk_prod(v, ZERO, dims[0], g((P_(v),)))
        from itertools import product
        for t in product(*[range(d) for d in dims]):
            r = r * g(tuple(P_(x) for x in t))
        return r
    return reduce_with(a, axis, keepdims, jsort('I', a.sort), red)


def _forall(dims, g):
    """0/1 term: g holds for all indices"""
    if all(isinstance(d, int) and d <= 64 for d in dims):
        from itertools import product
        r = ONE
        for t in product(*[range(d) for d in dims]):
            r = r * g(tuple(P_(x) for x in t))
            if r.is_zero():
                return r
        return r
    idx = tuple(P_(T.new_index('u', 0, P_(d))) for d in dims)
    t = C.CTX.simp(g(idx), solve=True)
    if t == ONE:
        return ONE
    # number of violations is zero
    n = nsum(tuple(dims), lambda i: ONE - g(i))
    r = T.ind_eq(n)
    q = r.single()
    if len(dims) == 1 and q and q[0] == 1 and len(q[1]) == 1:
        # the meaning of the bracket, for instantiation once it is known to hold
        i, body, hi = idx[0].as_atom().id, g(idx), P_(dims[0])
        C.FORALL_OF[q[1][0][0]] = (hi, lambda j: [T.subs(body, {i: j})])
    return r


def tobool(p, sort):
    return p if sort == 'B' else (ONE - T.ind_eq(p))


def reduce_all(a, axis=None, keepdims=False):
    a = as_arr(a)
    return reduce_with(a, axis, keepdims, 'B', lambda dims, g: _forall(dims, lambda i: tobool(g(i), a.sort)))


def reduce_any(a, axis=None, keepdims=False):
    a = as_arr(a)
    return reduce_with(a, axis, keepdims, 'B',
                       lambda dims, g: ONE - _forall(dims, lambda i: ONE - tobool(g(i), a.sort)))


def pmax(a, b):
    g = T.ind_ge(a - b)
    if not g.is_const():
        g = C.CTX.simp(g, solve=True)
    return g * a + (ONE - g) * b


def pmin(a, b):
    g = T.ind_ge(b - a)
    if not g.is_const():
        g = C.CTX.simp(g, solve=True)
    return g * a + (ONE - g) * b


def extremum(which, a, axis=None, keepdims=False):
    a = as_arr(a)
    f = pmax if which == 'max' else pmin

    def red(dims, g):
        if all(isinstance(d, int) and d <= 12 for d in dims):
            from itertools import product
            vs = [g(tuple(P_(x) for x in t)) for t in product(*[range(d) for d in dims])]
            if not vs:
                raise ValueError('zero-size array to reduction operation')
            r = vs[0]
            for v in vs[1:]:
                r = f(r, v)
            if len(vs) > 1 and not r.is_const() and r not in vs:
                FEWEXT[r] = (which, vs)
            return r
        return opaque_ext(which, dims, g)
    return reduce_with(a, axis, keepdims, a.sort, red)


EXT = {}          # opaque extremum atom -> (which, dims, element function)


def opaque_ext(which, dims, g):
    """max / min over symbolic ranges: an opaque term keyed by the element term"""
    idx = [T.new_index('x', 0, P_(d)) for d in dims]
    t = g(tuple(P_(v) for v in idx))
    one = t.single()
    fac = ONE
    if one is not None and one[0] > 0:
        # non-negative factors not depending on the index
        ids = {v.id for v in idx}
        out = {a: e for a, e in one[1] if not (T.atom(a).fv & ids) and T.atom(a).nn and T.atom(a).kind != 'ind'}
        if out or one[0] != 1:
            fac = T.mono_poly(out).scale(one[0])
            inv = T.mono_poly({a: e for a, e in one[1] if a not in out})
            mp0 = [v.id for v in idx]
            g = lambda i: T.subs(inv, dict(zip(mp0, i)))
            t = inv
    h = 1 + max([t.h] + [P_(d).h for d in dims])
    mp = {v.id: P_(T.bv(h + 50 + k)) for k, v in enumerate(idx)}
    key = T.subs(t, mp)
    nn = t.is_real() and all(c > 0 and all(T.atom(a).nn or e % 2 == 0 for a, e in m) for m, c in t.d.items())
    p = T.app(which + 'over', key, *[P_(d) for d in dims], sort='R', nn=nn)
    EXT[p] = (which, dims, g)
    return fac * p


def argext(which, a, axis=None):
    a = as_arr(a)

    def red(dims, g):
        if len(dims) == 1 and isinstance(dims[0], int) and dims[0] <= 12:
            best, bi = g((ZERO,)), ZERO
            for k in range(1, dims[0]):
                v = g((P_(k),))
                c = _cmp_p('>' if which == 'max' else '<', v, best)
                c = C.CTX.simp(c, solve=True)
                bi = c * k + (ONE - c) * bi
                best = c * v + (ONE - c) * best
            return bi
        if len(dims) != 1:
            raise Unsupported('argmax over several axes')
        idx = T.new_index('x', 0, P_(dims[0]))
        t = g((P_(idx),))
        h = 1 + max(t.h, P_(dims[0]).h)
        key = T.subs(t, {idx.id: P_(T.bv(h + 50))})
        p = T.app('arg' + which, key, P_(dims[0]), sort='I', nn=True)
        EXT[p] = ('arg' + which, dims, g)
        return p
    return reduce_with(a, axis, False, 'I', red)


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    ra, rb = a.reader(), b.reader()
    n = a.shape_[-1]
    m = b.shape_[-2] if b.ndim > 1 else b.shape_[0]
    if not same_dim(n, m):
        raise ValueError(f'matmul: size {m} is different from {n}')
    if isinstance(m, int):
        n = m
    s = jsort('I', a.sort, b.sort)
    if a.ndim <= 2 and b.ndim <= 2:
        la = a.ndim - 1

        def fn(idx):
            ia, ib = idx[:la], idx[la:]
            return tsum(0, P_(n), lambda k: ra(ia + (k,)) * rb((k,) + ib))
        shape = a.shape_[:-1] + (b.shape_[1:] if b.ndim == 2 else ())
        return wrap0(Arr(shape, fn, s))
    # stacks of matrices
    av, bvv = a.ndim == 1, b.ndim == 1
    ash = () if av else a.shape_[:-2]
    bsh = () if bvv else b.shape_[:-2]
    bs = bshape(ash, bsh)
    nb = len(bs)

    def fn(idx):
        bi, rest = idx[:nb], list(idx[nb:])
        ri = () if av else (rest.pop(0),)
        ci = () if bvv else (rest.pop(0),)
        ab = tuple(ZERO if isinstance(d, int) and d == 1 else i for d, i in zip(ash, bi[nb - len(ash):]))
        bb = tuple(ZERO if isinstance(d, int) and d == 1 else i for d, i in zip(bsh, bi[nb - len(bsh):]))
        return tsum(0, P_(n), lambda k: ra(ab + ri + (k,)) * rb(bb + (k,) + ci))
    shape = bs + (() if av else (a.shape_[-2],)) + (() if bvv else (b.shape_[-1],))
    return wrap0(Arr(shape, fn, s))


def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return arith('*', a, b)
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return arr_arith('*', a, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    ra, rb = a.reader(), b.reader()
    n = a.shape_[-1]
    m = b.shape_[-2] if b.ndim > 1 else b.shape_[0]
    if not same_dim(n, m):
        raise ValueError('shapes not aligned')
    la = a.ndim - 1

    def fn(idx):
        ia, ib = idx[:la], idx[la:]
        if b.ndim == 1:
            return tsum(0, P_(n), lambda k: ra(ia + (k,)) * rb((k,)))
        return tsum(0, P_(n), lambda k: ra(ia + (k,)) * rb(ib[:-1] + (k,) + ib[-1:]))
    shape = a.shape_[:-1] + (b.shape_[:-2] + b.shape_[-1:] if b.ndim > 1 else ())
    return wrap0(Arr(shape, fn, jsort('I', a.sort, b.sort)))


# ---------------------------------------------------------------- substitution in values, symbolic lists and iterators
def gen_term(a):
    """(index vars, term, shape) of the current content of an array"""
    iv = [T.new_index('g', 0, P_(d)) for d in a.shape_]
    return iv, a.at(tuple(P_(v) for v in iv))


def vsubs(v, mp):
    """substitute index variables in a value"""
    q = view_of(v)
    if q is not None:
        return q[0].view(T.subs(q[1], mp))
    if isinstance(v, S):
        p = T.subs(v.p, mp)
        return mk(p, True) if v.b else S(p)
    if isinstance(v, Arr):
        iv, t = gen_term(v)
        shape = [T.subs(P_(d), mp) for d in v.shape_]
        ids = [x.id for x in iv]

        def fn(idx):
            m2 = dict(mp)
            m2.update(zip(ids, idx))
            return T.subs(t, m2)
        return Arr(shape, fn, v.sort)
    if isinstance(v, tuple):
        return tuple(vsubs(x, mp) for x in v)
    if isinstance(v, list):
        return [vsubs(x, mp) for x in v]
    if isinstance(v, dict):
        return {k: vsubs(x, mp) for k, x in v.items()}
    if isinstance(v, SList):
        n = T.subs(v.n, mp)
        kk = T.new_index('l', 0, v.n)
        item = v.f(P_(kk))
        return SList(n, lambda k: vsubs(item, {**mp, kk.id: k}))
    if isinstance(v, SSel):
        kk = T.new_index('l', 0, v.n)
        item, mask = v.f(P_(kk)), v.mask(P_(kk))
        return SSel(T.subs(v.n, mp), lambda k: vsubs(item, {**mp, kk.id: k}), lambda k: T.subs(mask, {**mp, kk.id: k}))
    if isinstance(v, slice):
        return slice(*[vsubs(x, mp) for x in (v.start, v.stop, v.step)])
    return v


class FluxList:
    """a list that a symbolic loop appends to, as seen inside the loop body: its last element and length"""

    def __init__(self, lst, pseudo, env, count, rec):
        self.lst, self.pseudo, self.env, self.count, self.rec = lst, pseudo, env, count, rec

    def append(self, v):
        self.rec['appends'].append((self.lst, v))
        if self.pseudo is not None:
            self.env.vars[self.pseudo] = v

    def length(self):
        return mk(self.count + len(self.lst) + sum(1 for l, _ in self.rec['appends'] if l is self.lst))

    def __getitem__(self, i):
        if isinstance(i, S):
            i = int(i.p.const()) if i.p.is_const() else None
        if i == -1 and self.pseudo is not None:
            return self.env.vars[self.pseudo]
        raise T.Unsupported('element of a list that grows in the loop')

    def __iter__(self):
        raise T.Unsupported('a list that grows in the loop is read')

    def __bool__(self):
        if self.lst:
            return True
        raise T.Unsupported('a list that grows in the loop is read')


def fresh_items(f):
    """f, marking arrays that exist only for this access"""
    def g(k):
        s0 = serial()
        v = f(k)
        mark_lost(v, s0)
        return v
    return g


def mark_lost(v, s0):
    if isinstance(v, Arr):
        o = v.owner()
        if o.serial >= s0:
            o.lost = True
    elif isinstance(v, (tuple, list)):
        for x in v:
            mark_lost(x, s0)


def frozen(v, kk):
    """k -> v at k, with the contents of this moment"""
    w = vsubs(v, {})
    return lambda k: vsubs(w, {kk.id: k})


def view_of(o):
    """(list, number) of an object that is an element of a list of objects of symbolic length"""
    d = getattr(o, '__dict__', None)
    return d.get('__view__') if d else None


class SList:
    """list of symbolic length n whose k-th item is f(k)"""
    def __init__(self, n, f, prefix=()):
        self.n, self.f = P_(n), fresh_items(f)

    def __deepcopy__(self, memo):
        kk = T.new_index('l', 0, self.n)
        v = self.f(P_(kk))
        if not is_scalar(v) and not isinstance(v, Arr):
            raise Unsupported('copy of a list')
        return SList(self.n, frozen(v, kk))

    def __repr__(self):
        return f'SList({self.n})'

    def length(self):
        return mk(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            lo, step, n = norm_slice(k, dim(self.n))
            return SList(n, lambda j: self.f(lo + j.scale(step)))
        return self.f(norm_int(k, dim(self.n)))

    def stack(self):
        kk = T.new_index('l', 0, self.n)
        item = self.f(P_(kk))
        if is_scalar(item):
            p = lift(item)
            return Arr((self.n,), lambda idx: T.subs(p, {kk.id: idx[0]}), 'B' if isb(item) else psort(p))
        it = as_arr(item)
        for d in it.shape_:
            if kk.id in P_(d).fv:
                raise Unsupported('ragged list')
        iv, t = gen_term(it)
        ids = [x.id for x in iv]
        return Arr((self.n,) + it.shape_, lambda idx: T.subs(t, {kk.id: idx[0], **dict(zip(ids, idx[1:]))}), it.sort)

    def sum(self):
        kk = T.new_index('l', 0, self.n)
        return self.stack().sum(axis=0)


class SObjs(SList):
    """list of n different objects of one class; attrs: name -> (k -> value).  Its items are views without state of their own."""
    def __init__(self, n, cls, attrs):
        self.n, self.cls, self.attrs = P_(n), cls, {a: fresh_items(f) for a, f in attrs.items()}
        self.f = self.view

    def __deepcopy__(self, memo):
        kk = T.new_index('l', 0, self.n)
        r = SObjs(self.n, self.cls, {a: frozen(f(P_(kk)), kk) for a, f in self.attrs.items()})
        memo[id(self)] = r
        return r

    def view(self, k):
        o = object.__new__(self.cls)
        o.__dict__['__view__'] = (self, P_(k))
        return o

    def read(self, k, name):
        for rec in C.CTX.parallel or ():
            rec.setdefault('reads', []).append((self, k, name))
            for sl, k2, nm, v in reversed(rec.get('objs') or ()):
                if sl is self and nm == name:
                    if (k - k2).is_zero():
                        return v
                    raise Unsupported('another element of a list of objects changed in the loop')
        if name not in self.attrs:
            raise AttributeError(name)
        return self.attrs[name](k)

    def assign(self, k, name, v):
        if C.CTX.parallel:
            rec = C.CTX.parallel[-1]
            if len(C.CTX.parallel) > 1 or 'objs' not in rec:
                raise Unsupported('attribute assignment in a symbolic loop')
            rec['objs'].append((self, k, name, v))
            return
        old = self.attrs.get(name)
        if old is None:
            raise Unsupported('new attribute of one element of a list')
        w = vsubs(v, {})

        def f(j):
            c = C.CTX.simp(T.ind_eq(j - k), solve=True)
            if c == ONE:
                return w
            if c.is_zero():
                return old(j)
            from .interp import merge
            return merge([(c, w), (ONE - c, old(j))])
        self.attrs[name] = fresh_items(f)


class SSel:
    """list of the items f(k), 0 <= k < n, with mask(k), in order"""
    def __init__(self, n, f, mask):
        self.n, self.f, self.mask = P_(n), f, mask

    def length(self):
        return mk(tsum(ZERO, self.n, self.mask))

    def __bool__(self):
        return bool(self.length() > 0)

    def stack(self):
        a = SList(self.n, self.f).stack()
        if a.ndim == 1:
            return Masked(a.shape_, a.reader(), lambda i: self.mask(i[0]), a.sort)
        return Rows(lambda i: self.mask(i[0]), a)

    def __getitem__(self, k):
        raise T.Unsupported('element of a filtered list')

    def __iter__(self):
        raise T.Unsupported('iteration over a filtered list')

    def append(self, x):
        raise T.Unsupported('a filtered list is extended')


class SIter:
    """iteration over lo <= k < hi (integer terms), k-th item is f(k)"""
    def __init__(self, lo, hi, f):
        self.lo, self.hi, self.f = P_(lo), P_(hi), f

    def as_list(self):
        return SList(self.hi - self.lo, lambda k: self.f(self.lo + k))
