"""C04: spherical harmonics matrix."""
from ..vc import obligation
from ..sym import S, lift
from .. import terms as T
from .. import npf
from ..terms import P_, ONE
import numpy as np
import scipy.special
from spaudiopy import sph

H = scipy.special.sph_harm


def nm(v, N, sign=None):
    n = v.index('n', 0, N + 1)
    m = v.index('m', -n, n + 1)
    return n, m


def setup(v):
    N, Q = v.int('N', 0), v.int('Q', 1)
    return N, Q, v.array('azi', (Q,)), v.array('zen', (Q,)), v.index('q', 0, Q)


@obligation('C04', 'complex_columns')
def _(v):
    """shape (Q, (N+1)^2); column n^2+n+m is Y_n^m(direction of the row), for every order and number of directions"""
    N, Q, azi, zen, q = setup(v)
    Y = v.call(sph.sh_matrix, N, azi, zen, 'complex')
    v.same_shape(Y, (Q, (N + 1) ** 2), 'shape')
    n, m = nm(v, N)
    v.eq(v.at(Y, q, n * n + n + m), v.call(H, m, n, v.at(azi, q), v.at(zen, q)), 'column')
    v.frame()


@obligation('C04', 'real_columns')
def _(v):
    """real convention: sqrt2 (-1)^m Re (m > 0) / Im (m < 0) of the |m| column, m = 0 unchanged"""
    N, Q, azi, zen, q = setup(v)
    Y = v.call(sph.sh_matrix, N, azi, zen, 'real')
    v.same_shape(Y, (Q, (N + 1) ** 2), 'shape')
    n = v.index('n', 0, N + 1)
    a, z = v.at(azi, q), v.at(zen, q)
    v.eq(v.at(Y, q, n * n + n), v.call(np.real, v.call(H, 0, n, a, z)), 'm = 0')
    m = v.index('m', 1, n + 1)
    h = v.call(np.sqrt, 2) * (-1) ** m * v.call(H, m, n, a, z)
    v.eq(v.at(Y, q, n * n + n + m), v.call(np.real, h), 'm > 0')
    v.eq(v.at(Y, q, n * n + n - m), v.call(np.imag, h), 'm < 0')
    v.frame()


@obligation('C04', 'prefix')
def _(v):
    """the matrix of a smaller order is the left part of the matrix of a larger one"""
    N, Q, azi, zen, q = setup(v)
    d = v.int('d', 0)
    n, m = nm(v, N)
    c = n * n + n + m
    for t in ('complex', 'real'):
        A = v.call(sph.sh_matrix, N, azi, zen, t)
        B = v.call(sph.sh_matrix, N + d, azi, zen, t)
        v.eq(v.at(A, q, c), v.at(B, q, c), t)


@obligation('C04', 'columns_cover')
def _(v):
    """n^2+n+m enumerates 0 .. (N+1)^2-1 without gaps: every column index has exactly one (n, m)"""
    N = v.int('N', 0)
    c = v.index('c', 0, (N + 1) ** 2)
    n = v.call(np.floor, v.call(np.sqrt, c))
    m = c - n * n - n
    v.true((n >= 0) & (n <= N), 'degree')
    v.true((m >= -n) & (m <= n), 'order')


@obligation('C04', 'rows_local')
def _(v):
    """row q equals the single-row matrix of direction q"""
    N, Q, azi, zen, q = setup(v)
    n, m = nm(v, N)
    c = n * n + n + m
    for t in ('complex', 'real'):
        A = v.call(sph.sh_matrix, N, azi, zen, t)
        B = v.call(sph.sh_matrix, N, azi[q], zen[q], t)
        v.same_shape(B, (1, (N + 1) ** 2), 'shape')
        v.eq(v.at(A, q, c), v.at(B, 0, c), t)


@obligation('C04', 'conjugate_symmetry')
def _(v):
    """complex: column of -m is (-1)^m conj(column of m)"""
    N, Q, azi, zen, q = setup(v)
    Y = v.call(sph.sh_matrix, N, azi, zen, 'complex')
    n = v.index('n', 0, N + 1)
    m = v.index('m', 1, n + 1)
    v.eq(v.at(Y, q, n * n + n - m), (-1) ** m * v.call(np.conj, v.at(Y, q, n * n + n + m)), 'symmetry')


@obligation('C04', 'convention_relation')
def _(v):
    """real versus complex matrix, entry by entry; so per degree the row products agree:
    R_m R'_m + R_-m R'_-m = Re(Y_m conj Y'_m + Y_-m conj Y'_-m)"""
    N, Q, azi, zen, q = setup(v)
    p = v.index('p', 0, Q)
    Y = v.call(sph.sh_matrix, N, azi, zen, 'complex')
    R = v.call(sph.sh_matrix, N, azi, zen, 'real')
    n = v.index('n', 0, N + 1)
    m = v.index('m', 1, n + 1)
    c, d, e = n * n + n, n * n + n + m, n * n + n - m
    conj = lambda x: v.call(np.conj, x)
    v.eq(v.at(R, q, c) * v.at(R, p, c), v.at(Y, q, c) * conj(v.at(Y, p, c)), 'm = 0')
    v.eq(v.at(R, q, d) * v.at(R, p, d) + v.at(R, q, e) * v.at(R, p, e),
         v.at(Y, q, d) * conj(v.at(Y, p, d)) + v.at(Y, q, e) * conj(v.at(Y, p, e)), '+-m')


@obligation('C04', 'unknown_type_rejected')
def _(v):
    N, Q, azi, zen, q = setup(v)
    v.raises(ValueError, sph.sh_matrix, N, azi, zen, 'other')


@obligation('C04', 'addition_theorem', bound='N <= 3', assumptions=['explicit formula of scipy.special.sph_harm for n <= 3'])
def _(v):
    """inner product of two rows = sum_n (2n+1)/(4 pi) P_n(cos angle), both conventions; row norm^2 = (N+1)^2/(4 pi)"""
    azi, zen = v.concrete_array('azi', (2,)), v.concrete_array('zen', (2,))
    a, z = [v.at(azi, i) for i in range(2)], [v.at(zen, i) for i in range(2)]
    sin, cos = (lambda x: v.call(np.sin, x)), (lambda x: v.call(np.cos, x))
    g = sin(z[0]) * sin(z[1]) * cos(a[0] - a[1]) + cos(z[0]) * cos(z[1])
    pi = S(P_(T.PI))
    for N in range(4):
        want = sum((2 * n + 1) / (4 * pi) * v.call(scipy.special.eval_legendre, n, g) for n in range(N + 1))
        for t in ('complex', 'real'):
            Y = v.call(sph.sh_matrix, N, azi, zen, t)
            C = (N + 1) ** 2
            v.eq(v.explicit(sum(v.at(Y, 0, c) * v.call(np.conj, v.at(Y, 1, c)) for c in range(C))), want, f'{t} {N}')
            v.eq(v.explicit(sum(v.at(Y, 0, c) * v.call(np.conj, v.at(Y, 0, c)) for c in range(C))), C / (4 * pi), f'norm {t} {N}')
