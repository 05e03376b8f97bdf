"""C05: spherical harmonics transforms."""
from ..vc import obligation
from ..sym import S, lift, Arr
from .. import terms as T
from ..terms import P_, ONE
import numpy as np
from spaudiopy import sph

PI4 = lambda: 4 * S(P_(T.PI))


def delta(c, d):
    return S(T.ind_eq(lift(c) - lift(d)))


def grid(v, t, weights):
    """arbitrary grid of Q directions with exact quadrature for products of harmonics up to order N;
    sh_matrix is represented by its contract (C04): a (Q, (N+1)^2) matrix depending on the directions"""
    N, Q, L = v.int('N', 0), v.int('Q', 1), v.int('L', 1)
    K = (N + 1) ** 2
    Y = v.array('Y', (Q, K), sort='C' if t == 'complex' else 'R')
    if weights:
        w = v.array('w', (Q,))
        v.gram('Y', 0, Q, delta, weight='w')
    else:
        w = None
        v.gram('Y', 0, Q, lambda c, d: delta(c, d) * Q / PI4())
    azi, zen = v.array('azi', (Q,)), v.array('zen', (Q,))

    def contract(I, N_sph, a, z, sh_type='real'):
        if a is not azi or z is not zen or sh_type != t:
            v.structure('sh_matrix called with other directions')
        if not Y_eq(v, N_sph, N):
            return v.array('Yother', (Q, (S(lift(N_sph)) + 1) ** 2), sort='C' if t == 'complex' else 'R')
        return Y
    v.contract(sph.sh_matrix, contract)
    return N, Q, L, K, Y, w, azi, zen


def Y_eq(v, a, b):
    from .. import core as C
    return C.CTX.simp(lift(a) - lift(b), solve=True).is_zero()


def roundtrip(t, weights):
    def f(v):
        N, Q, L, K, Y, w, azi, zen = grid(v, t, weights)
        F = v.array('F', (K, L), sort='C')
        for inner in (True, False):
            y = None if inner else Y
            f = v.call(sph.inverse_sht, F, azi, zen, t, N, y)
            v.same_shape(f, (Q, L), 'function shape')
            G = v.call(sph.sht, f, N, azi, zen, t, w, y)
            v.eq(G, F, 'sht(inverse_sht(F)) = F')
            # function -> coefficients -> function, for f in the span of Y
            h = v.call(sph.inverse_sht, G, azi, zen, t, N, y)
            v.eq(h, f, 'inverse_sht(sht(f)) = f')
        v.frame()
    f.__doc__ = f"""{t}, {'explicit weights' if weights else 'equal weights'}: sht and inverse_sht are mutually inverse on band-limited
    functions for every exact grid, order, number of directions and of signals; harmonics matrix passed in or computed"""
    return f


for t_ in ('real', 'complex'):
    for w_ in (False, True):
        obligation('C05', f'roundtrip_{t_}_{"weights" if w_ else "equal"}')(roundtrip(t_, w_))


@obligation('C05', 'sht_law')
def _(v):
    """sht is the weighted analysis sum: entry (c, s) = sum_q w_q conj(Y[q, c]) f[q, s]: linear, column by column"""
    for t in ('real', 'complex'):
        N, Q, L = v.int('N', 0), v.int('Q', 1), v.int('L', 1)
        K = (N + 1) ** 2
        Y = v.array('Y', (Q, K), sort='C' if t == 'complex' else 'R')
        w, f = v.array('w', (Q,)), v.array('f', (Q, L), sort='C')
        azi, zen = v.array('azi', (Q,)), v.array('zen', (Q,))
        c, s = v.index('c', 0, K), v.index('s', 0, L)
        cj = lambda x: v.call(np.conj, x)
        G = v.call(sph.sht, f, N, azi, zen, t, w, Y)
        v.same_shape(G, (K, L), 'shape')
        v.eq(v.at(G, c, s), v.sum(0, Q, lambda q: v.at(w, q) * cj(v.at(Y, q, c)) * v.at(f, q, s)), 'weights')
        G = v.call(sph.sht, f, N, azi, zen, t, Y_nm=Y)
        v.eq(v.at(G, c, s), PI4() / Q * v.sum(0, Q, lambda q: cj(v.at(Y, q, c)) * v.at(f, q, s)), 'equal weights')
        F = v.array('F', (K, L), sort='C')
        q = v.index('q', 0, Q)
        h = v.call(sph.inverse_sht, F, azi, zen, t, N, Y)
        v.eq(v.at(h, q, s), v.sum(0, K, lambda d: v.at(Y, q, d) * v.at(F, d, s)), 'inverse')
    v.frame()


@obligation('C05', 'single_function')
def _(v):
    """a single function is one column"""
    for t in ('real', 'complex'):
        N, Q = v.int('N', 0), v.int('Q', 1)
        K = (N + 1) ** 2
        Y = v.array('Y', (Q, K), sort='C' if t == 'complex' else 'R')
        w, f, F = v.array('w', (Q,)), v.array('f', (Q,), sort='C'), v.array('F', (K,), sort='C')
        azi, zen = v.array('azi', (Q,)), v.array('zen', (Q,))
        col = lambda a: v.call(np.expand_dims, a, 1)
        for wt in (None, w):
            v.eq(v.call(sph.sht, f, N, azi, zen, t, wt, Y), v.call(sph.sht, col(f), N, azi, zen, t, wt, Y), 'sht')
        v.eq(v.call(sph.inverse_sht, F, azi, zen, t, N, Y), v.call(sph.inverse_sht, col(F), azi, zen, t, N, Y), 'inverse')
    v.frame()


@obligation('C05', 'inverse_default_order')
def _(v):
    """without an order the number of coefficients decides it"""
    N, Q, L = v.int('N', 0), v.int('Q', 1), v.int('L', 1)
    K = (N + 1) ** 2
    azi, zen, F = v.array('azi', (Q,)), v.array('zen', (Q,)), v.array('F', (K, L), sort='C')
    for t in ('real', 'complex'):
        Y = v.array('Y', (Q, K), sort='C' if t == 'complex' else 'R')
        seen = []

        def contract(I, n, a, z, sh_type='real'):
            seen.append(n)
            return Y
        v.contract(sph.sh_matrix, contract)
        a = v.call(sph.inverse_sht, F, azi, zen, t)
        for n in seen:
            v.eq(n, N, 'order')
        v.eq(a, v.call(sph.inverse_sht, F, azi, zen, t, N, Y), 'same')


@obligation('C05', 'lstsq', assumptions=['numpy.linalg.lstsq(A, A X) = X for A of full column rank'])
def _(v):
    """the least-squares transform of Y F solves exactly Y X = Y F (right-hand side passed column by column, unmodified)"""
    for t in ('real', 'complex'):
        for inner in (True, False):
            N, Q, L, K, Y, w, azi, zen = grid(v, t, True)
            F = v.array('F', (K, L), sort='C')
            f = v.call(sph.inverse_sht, F, azi, zen, t, N, Y)
            X = v.call(sph.sht_lstsq, f, N, azi, zen, t, None if inner else Y)
            cs = v.calls('lstsq')
            if not cs:
                v.structure('no lstsq call')
            v.eq(cs[-1].args[0], Y, 'matrix')
            v.eq(cs[-1].args[1], f, 'right-hand side')
            v.eq(X, cs[-1].result[0], 'result')
    v.frame()


@obligation('C05', 'sh_mult', assumptions=['load_t_design(d) is a t-design of degree >= d (C22)'])
def _(v):
    """the product is the transform of the pointwise product of both functions on a design of degree >= 2 (N1 + N2), of order N1 + N2:
    with C05/roundtrip and the degree, the coefficient set of the pointwise product"""
    from spaudiopy import grids, utils
    N1, N2, M = v.int('N1', 0), v.int('N2', 0), v.int('M', 2)
    K1, K2, K = (N1 + 1) ** 2, (N2 + 1) ** 2, (N1 + N2 + 1) ** 2
    for t in ('real', 'complex'):
        vec, a, b = v.array('vec', (M, 3)), v.array('a', (K1,), sort='C'), v.array('b', (K2,), sort='C')
        got = []

        def design(I, degree):
            got.append(degree)
            return vec

        def shm(I, n, azi, zen, sh_type='real'):
            return Arr((lift(M), lift((S(lift(n)) + 1) ** 2)), lambda i: T.app('Y', *i, sort='C' if t == 'complex' else 'R'), 'C' if t == 'complex' else 'R')
        v.contract(grids.load_t_design, design)
        v.contract(sph.sh_matrix, shm)
        c = v.call(sph.sh_mult, a, b, t)
        if not got:
            v.structure('no design loaded')
        v.true(got[-1] >= 2 * (N1 + N2), 'degree of the design')
        v.same_shape(c, (K,), 'shape')
        k = v.index('k', 0, K)
        cj = lambda x: v.call(np.conj, x)
        Y = lambda q, i: S(T.app('Y', lift(q), lift(i), sort='C' if t == 'complex' else 'R'))
        v.eq(v.at(c, k), PI4() / M * v.sum(0, M, lambda q: cj(Y(q, k)) * v.sum(0, K1, lambda i: Y(q, i) * v.at(a, i))
                                           * v.sum(0, K2, lambda i: Y(q, i) * v.at(b, i))), 'coefficients')
        v.frame()
