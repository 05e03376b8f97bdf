"""C09: adaptive beamformers and subspace estimates."""
import numpy as np
from ..vc import obligation
from ..sym import S, lift
from .. import terms as T
from ..terms import P_, ONE
from spaudiopy import parsa, sph

PD = 'a positive definite matrix is invertible and its inverse gives a non-zero value y^T S^-1 y for the steering vectors'


def steering(v, N, K, Ys):
    """contract of sh_matrix: an arbitrary real matrix, one row per direction, in direction order"""
    def contract(I, n, a, z, sh_type='complex'):
        if sh_type != 'real':
            v.structure('sh_matrix type')
        for aa, zz, Y in Ys:
            v.eq(n, N, 'order')
            v.eq(a, aa, 'azimuths')
            v.eq(z, zz, 'zeniths')
            return Y
    v.contract(sph.sh_matrix, contract)


def cov(v, K):
    return v.symmetric('Sx', K)


@obligation('C09', 'mvdr', assumptions=[PD])
def _(v):
    """minimum variance: unit response to every steering direction, and w^T S d = 0 for every change d that keeps the
    response (hence, S being positive definite, no weights of the same response give less power)"""
    N, D = v.int('N', 0), v.int('D', 1)
    K = (N + 1) ** 2
    azi, zen = v.array('azi', (D,)), v.array('zen', (D,))
    Y = v.array('Y', (D, K))
    steering(v, N, K, [(azi, zen, Y)])
    Sx = cov(v, K)
    q = v.index('q', 0, D)
    W = v.call(parsa.sh_mvdr, Sx, azi, zen)
    v.same_shape(W, (D, K), 'shape')
    inv = [c for c in v.calls('inv') + v.calls('solve')]
    if len(inv) != 1 or inv[0].name != 'inv':
        v.structure('inverse of the covariance')
    X = inv[0].result
    v.nonzero(v.sum(0, K, lambda k: v.sum(0, K, lambda l: v.at(Y, q, k) * v.at(X, k, l) * v.at(Y, q, l))))
    v.eq(v.sum(0, K, lambda k: v.at(W, q, k) * v.at(Y, q, k)), 1, 'response')
    d = v.array('d', (K,))
    v.law(lambda: v.sum(0, K, lambda k: v.at(Y, q, k) * v.at(d, k)), 0, lambda: 0)
    v.eq(v.sum(0, K, lambda k: v.sum(0, K, lambda l: v.at(W, q, k) * v.at(Sx, k, l) * v.at(d, l))), 0, 'least power')
    v.frame()


@obligation('C09', 'lcmv', assumptions=[PD, 'the constraint directions have linearly independent steering vectors'])
def _(v):
    """linearly constrained: the requested response toward each constraint direction, least power among those"""
    N, D = v.int('N', 0), v.int('D', 1)
    K = (N + 1) ** 2
    azi, zen, g = v.array('azi', (D,)), v.array('zen', (D,)), v.array('g', (D,))
    Y = v.array('Y', (D, K))
    steering(v, N, K, [(azi, zen, Y)])
    Sx = cov(v, K)
    q = v.index('q', 0, D)
    w = v.call(parsa.sh_lcmv, Sx, azi, zen, g)
    v.same_shape(w, (K,), 'shape')
    v.eq(v.sum(0, K, lambda k: v.at(w, k) * v.at(Y, q, k)), v.at(g, q), 'response')
    d = v.array('d', (K,))
    v.law(lambda r: v.sum(0, K, lambda k: v.at(Y, r, k) * v.at(d, k)), 1, lambda r: 0)
    v.eq(v.sum(0, K, lambda k: v.sum(0, K, lambda l: v.at(w, k) * v.at(Sx, k, l) * v.at(d, l))), 0, 'least power')
    v.frame()


@obligation('C09', 'separate_cov')
def _(v):
    """signal and residual part add up to the covariance, for every number of sources from none to one less than the channels;
    the signal part is a sum of that many non-negatively weighted squares"""
    K = v.int('K', 1)
    n = v.int('n', 0)
    v.assume(n <= K - 1)
    Sx = cov(v, K)
    Spp, Snn = v.call(parsa.separate_cov, Sx, num_cut=n)
    j, k = v.index('j', 0, K), v.index('k', 0, K)
    v.same_shape(Spp, (K, K), 'shape')
    v.same_shape(Snn, (K, K), 'shape')
    v.eq(v.at(Spp, j, k) + v.at(Snn, j, k), v.at(Sx, j, k), 'sum')
    e = v.calls('eigh')
    if len(e) != 1:
        v.structure('eigendecomposition')
    w, Q = e[0].result
    x = v.array('x', (K,))
    pw = v.sum(0, K, lambda a: v.sum(0, K, lambda b: v.at(x, a) * v.at(Spp, a, b) * v.at(x, b)))
    lead = lambda i: v.at(w, i) - v.at(w, K - n - 1)
    t = lambda i: v.sum(0, K, lambda a: v.at(x, a) * v.at(Q, a, i))
    v.eq(pw, v.sum(K - n, K, lambda i: lead(i) * t(i) * t(i)), 'quadratic form')
    i = v.index('i', K - n, K)
    v.assume(v.at(w, i) >= v.at(w, K - n - 1))          # numpy.linalg.eigh: ascending eigenvalues
    v.true(lead(i) >= 0, 'weights')
    v.eq(v.at(Spp, j, k), v.sum(K - n, K, lambda i: lead(i) * v.at(Q, j, i) * v.at(Q, k, i)), 'rank')
    v.frame()


@obligation('C09', 'music')
def _(v):
    """reciprocal of the (regularised) energy of the steering vector in the noise subspace"""
    N, D = v.int('N', 0), v.int('D', 1)
    K = (N + 1) ** 2
    n = v.int('n', 0)
    v.assume(n <= K - 1)
    azi, zen = v.array('azi', (D,)), v.array('zen', (D,))
    Y = v.array('Y', (D, K))
    steering(v, N, K, [(azi, zen, Y)])
    Sx = cov(v, K)
    q = v.index('q', 0, D)
    P = v.call(parsa.sh_music, Sx, n, azi, zen)
    v.same_shape(P, (D,), 'shape')
    e = v.calls('eigh')
    if len(e) != 1:
        v.structure('eigendecomposition')
    w, Q = e[0].result
    t = lambda i: v.sum(0, K, lambda a: v.at(Q, a, i) * v.at(Y, q, a))
    en = v.sum_of_squares(0, K - n, t)
    v.eq(v.at(P, q) * (en + S(P_(1)) / 100000000000), 1, 'reciprocal')
    v.true(v.at(P, q) > 0, 'positive')
    v.frame()


@obligation('C09', 'num_sources_range')
def _(v):
    """the estimate lies between 0 and one less than the number of channels"""
    K = v.int('K', 2)
    w = v.array('w', (K,))
    a = v.real('a')
    r = v.call(parsa.estimate_num_sources, None, a=a, w=w)
    v.true(r >= 0, 'lower')
    v.true(r <= K - 1, 'upper')
    Sx = cov(v, K)
    r = v.call(parsa.estimate_num_sources, Sx)
    v.true(r >= 0, 'lower')
    v.true(r <= K - 1, 'upper')
    v.frame()
