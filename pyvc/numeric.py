"""numeric evaluation of terms (used to refute obligations and to turn closed constants into numbers)"""
import cmath
import math
import hashlib
from fractions import Fraction as Fr
from . import terms as T
from .terms import P, P_, atom


class NoValue(Exception):
    pass


FUN = {
    'abs': lambda x: abs(x), 'floor': lambda x: math.floor(re_(x) + 1e-12), 'par': lambda x: (-1) ** int(round(re_(x))),
    'atan2': lambda y, x: math.atan2(re_(y), re_(x)), 'acos': lambda x: math.acos(max(-1., min(1., re_(x)))),
    'asin': lambda x: math.asin(max(-1., min(1., re_(x)))), 'modulo': lambda a, b: re_(a) % re_(b),
    'idiv': lambda a, b: int(round(re_(a))) // int(round(re_(b))), 'rint': lambda x: round(re_(x)),
    'log10': lambda x: math.log10(re_(x)), 'log': lambda x: math.log(re_(x)), 'tanh': lambda x: math.tanh(re_(x)),
    'ipow': lambda n: 1j ** int(round(re_(n))), 'isqrt': lambda n: math.isqrt(int(round(re_(n)))),
    'wrapcorr': lambda d: float(__import__('numpy').unwrap([0., re_(d)])[1]) - re_(d),
    'pow': lambda a, b: a ** b, 'fact': lambda n: math.factorial(int(round(re_(n)))), 'exp': lambda x: math.exp(re_(x)),
}
OPAQUE_OK = True


def re_(x):
    return x.real if isinstance(x, complex) else x


def key_of(x):
    if isinstance(x, complex):
        return f'{round(x.real, 7)}{round(x.imag, 7):+}j'
    return str(round(float(x), 7))


def rnd(name, sort, nn, seed):
    h = hashlib.sha256(f'{seed}:{name}'.encode()).digest()
    u = int.from_bytes(h[:6], 'big') / 2 ** 48
    v = int.from_bytes(h[6:12], 'big') / 2 ** 48
    if sort == 'I':
        return int(u * 5) if nn else int(u * 7) - 2
    m = 1.
    if seed % 4 == 2:           # values of very different magnitude
        m = 10 ** (-5 * int.from_bytes(h[12:15], 'big') / 2 ** 24)
    elif seed % 4 == 3:         # all values small
        m = 10 ** (-(seed // 4 % 9) / 2)
    if nn:
        return (0.1 + 2 * u) * m
    if sort == 'C':
        return complex(2 * u - 1, 2 * v - 1) * m
    return (2 * u - 1) * m


class Ev:
    def __init__(self, env, seed=0, opaque=True, limit=200000):
        self.env, self.seed, self.opaque, self.limit = env, seed, opaque, limit
        self.steps = 0

    def poly(self, p, b):
        r = 0
        for m, c in p.d.items():
            t = float(c) if c.denominator != 1 else int(c)
            for a, e in m:
                if t == 0:
                    break
                v = self.atom(a, b)
                if e == 1:
                    t = t * v
                else:
                    if v == 0 and e < 0:
                        raise NoValue('division by zero')
                    if isinstance(v, complex) and abs(v.imag) < 1e-14 and v.real >= 0:
                        v = v.real
                    if not isinstance(v, complex) and v < 0 and Fr(e).denominator != 1:
                        if abs(v) < 1e-12:
                            v = 0.
                        else:
                            v = complex(v)
                    t = t * v ** (int(e) if Fr(e).denominator == 1 else float(e))
            r = r + t
        return r

    def atom(self, a, b):
        self.steps += 1
        if self.steps > self.limit:
            raise NoValue('too large')
        A = atom(a)
        k = A.kind
        if k == 'var':
            if a in b:
                return b[a]
            if a in self.env:
                return self.env[a]
            v = rnd(A.data[0], A.sort, A.nn, self.seed)
            self.env[a] = v
            return v
        if k == 'bv':
            if a in b:
                return b[a]
            raise NoValue('unbound')
        if k == 'I':
            return 1j
        if k == 'pi':
            return math.pi
        if k == 'prime':
            return A.data
        if k == 'conj':
            v = self.atom(A.data, b)
            return v.conjugate() if isinstance(v, complex) else v
        if k == 'ind':
            v = self.poly(A.data[1], b)
            if A.data[0] == 'eq':
                return 1 if abs(v) < 1e-9 else 0
            return 1 if re_(v) >= -1e-9 else 0
        if k == 'pa':
            return self.poly(A.data, b)
        if k == 'pw':
            base, m = A.data
            x = self.poly(P({m: Fr(1)}), b)
            if base == 'expi':
                return cmath.exp(1j * x)
            return self.poly(base, b) ** x
        if k == 'app':
            nm, args = A.data
            vs = [self.poly(x, b) if isinstance(x, P) else x for x in args]
            f = FUN.get(nm)
            if f is not None:
                try:
                    return f(*vs)
                except (ValueError, ZeroDivisionError, OverflowError) as e:
                    raise NoValue(str(e))
            if not self.opaque:
                raise NoValue('opaque ' + nm)
            return rnd(nm + '(' + ','.join(key_of(v) if not isinstance(v, (str, tuple)) else str(v) for v in vs) + ')',
                       A.sort, A.nn, self.seed)
        if k == 'sum':
            h, rng, mono = A.data
            return self.sumrec(h, rng, 0, P({mono: Fr(1)}), dict(b))
        if k == 'prod':
            h, lo, hi, body = A.data
            lo_, hi_ = int(round(re_(self.poly(lo, b)))), int(round(re_(self.poly(hi, b))))
            r = 1
            bb = dict(b)
            for i in range(lo_, hi_):
                bb[T.bv(h).id] = i
                r = r * self.poly(body, bb)
            return r
        raise NoValue(k)

    def sumrec(self, h, rng, d, body, b):
        if d == len(rng):
            return self.poly(body, b)
        lo, hi = rng[d]
        lo_, hi_ = int(round(re_(self.poly(lo, b)))), int(round(re_(self.poly(hi, b))))
        r = 0
        v = T.bv(h + d).id
        for i in range(lo_, hi_):
            b[v] = i
            r = r + self.sumrec(h, rng, d + 1, body, b)
        b.pop(v, None)
        return r


def ev(p, env, seed=0):
    v = Ev(dict(env), seed, opaque=False).poly(p, {})
    if isinstance(v, complex) and abs(v.imag) < 1e-13 * max(1, abs(v.real)):
        v = v.real
    return v
