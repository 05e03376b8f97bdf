"""C22: sampling grids."""
from ..vc import obligation
from ..sym import S, Arr, SList, lift
from .. import terms as T
from ..terms import P_, ONE
import numpy as np
import os
from spaudiopy import grids

PI = S(P_(T.PI))


@obligation('C22', 'equal_polar_angle')
def _(v):
    """2n + 1 equally spaced angles in [0, 2 pi), weights 1/(2n+1) that sum to one, for every n; every circular harmonic of degree
    1 <= |k| <= 2n integrates to zero"""
    n = v.int('n', 1)
    pol, w = v.call(grids.equal_polar_angle, n)
    M = 2 * n + 1
    v.same_shape(pol, (M,), 'angles')
    v.same_shape(w, (M,), 'weights')
    i = v.index('i', 0, M)
    v.eq(v.at(pol, i), 2 * PI * i / M, 'angle')
    v.true(v.at(pol, i) >= 0, 'range')
    v.true(v.at(pol, i) < 2 * PI, 'range')
    v.eq(v.sum(0, M, lambda q: v.at(w, q)), 1, 'weights sum to one')
    k = v.int('k')
    v.eq(v.at(w, i) * v.call(np.exp, 1j * k * v.at(pol, i)), v.call(np.exp, 1j * k * (2 * PI * i / M)) / M, 'harmonics')
    v.lemma('unit_roots')       # their sum over i vanishes for 0 < |k| < M


HALF = S(P_(T.Fr(1, 2)))


def tensor(v, M, K, azi, zen, w, az, ze, wt):
    """the product grid of M azimuths az(i) and K zenith angles ze(j), the weight wt(j) the same for all azimuths"""
    for x in (azi, zen, w):
        v.same_shape(x, (M * K,), 'as many azimuths, zenith angles and weights')
    i, j = v.index('i', 0, M), v.index('j', 0, K)
    q = j * M + i
    v.eq(v.at(azi, q), az(i), 'azimuth')
    v.eq(v.at(zen, q), ze(j), 'zenith')
    v.eq(v.at(w, q), wt(j), 'weight')
    v.true(az(i) >= 0, 'azimuth range')
    v.true(az(i) < 2 * PI, 'azimuth range')
    k = v.int('k')
    v.eq(v.at(w, q) * v.call(np.exp, 1j * k * v.at(azi, q)), wt(j) * v.call(np.exp, 1j * k * (2 * PI * i / M)), 'azimuthal harmonics')
    v.lemma('unit_roots')       # their sum over i vanishes for 0 < |k| < M


@obligation('C22', 'equal_angle')
def _(v):
    """product of 2n + 2 azimuths and 2n + 2 zenith angles with the weights of the theorem, which shows that the grid integrates
    every zonal polynomial up to degree 2n + 1; the other harmonics up to that degree vanish over the azimuths; for every n"""
    n = v.int('n', 0)
    azi, zen, w = v.call(grids.equal_angle, n)
    M = 2 * n + 2
    th = lambda j: PI * (j + HALF) / M
    p = lambda t, x: v.call(np.sin, (2 * t + 1) * x) / (2 * t + 1)
    tensor(v, M, M, azi, zen, w, lambda i: 2 * PI * i / M, th,
           lambda j: 2 * PI / (n + 1) ** 2 * v.call(np.sin, th(j)) * v.sum(0, n + 1, lambda t: p(t, th(j))))
    j = v.index('j', 0, M)
    v.true(th(j) >= 0, 'zenith range')
    v.true(th(j) <= PI, 'zenith range')
    v.lemma('equal_angle_exact')


@obligation('C22', 'gauss', assumptions=['contract of numpy.polynomial.legendre.leggauss(K): K nodes in (-1, 1) and weights of the '
                                         'quadrature exact up to degree 2K - 1'])
def _(v):
    """product of 2n + 2 azimuths and the n + 1 Gauss-Legendre nodes with their weights times pi/(n + 1), for every n: zonal
    polynomials up to degree 2n + 1 are integrated as by the nodes (2 pi times), the other harmonics vanish over the azimuths;
    weights sum to 4 pi"""
    n = v.int('n', 0)
    K, M = n + 1, 2 * n + 2
    x, g = v.array('x', (K,)), v.array('g', (K,))

    def leggauss(I, k):
        v.eq(k, K, 'number of nodes')
        return x.copy(), g.copy()
    v.contract(np.polynomial.legendre.leggauss, leggauss)
    azi, zen, w = v.call(grids.gauss, n)
    tensor(v, M, K, azi, zen, w, lambda i: 2 * PI * i / M, lambda j: v.call(np.arccos, v.at(x, j)), lambda j: v.at(g, j) * PI / K)
    # over the M azimuths the weight of node j is 2 pi g(j), and cos(zenith) is the node
    j = v.index('j', 0, K)
    v.eq(v.sum(0, M, lambda i: v.at(w, j * M + i)), 2 * PI * v.at(g, j), 'weight of a node')
    v.assume(v.at(x, j) > -1)
    v.assume(v.at(x, j) < 1)
    v.eq(v.call(np.cos, v.at(zen, j * M)), v.at(x, j), 'node')


RANGES = dict(load_t_design=(1, 21), load_n_design=(1, 124), load_lebedev=(3, 131), load_Fliege_Maier_nodes=(2, 30), load_maxDet=(1, 200))


@obligation('C22', 'degree_range')
def _(v):
    """every degree outside the supported range is rejected"""
    d = v.int('d')
    v.contract(grids.loadmat, lambda I, f, **k: v.fail('read for an unsupported degree'))
    for f, (lo, hi) in RANGES.items():
        v.raises(ValueError, getattr(grids, f), hi + 1 + v.int('above', 0))
        v.raises(ValueError, getattr(grids, f), lo - 1 - v.int('below', 0))


def tables(v, names, cols):
    """one arbitrary table per degree"""
    n = v.int('n', 1)
    return {d: v.array(f't{d}', (n, cols)) for d in names}, n


def table_of(v, got, tab, d, n, out, what):
    """what is returned is made of a stored table of degree at least d"""
    r, c = v.index('r', 0, n), S(P_(0))
    a = got if isinstance(got, tuple) else (got,)
    v.need(all(isinstance(x, Arr) for x in a), 'arrays are returned')
    look = lambda xs: [lift(v.at(x, *i)) for x, i in zip(xs[:1], ((r, c),))]
    mine = look(a)
    e = next((e for e in sorted(tab, key=lambda e: (e < d, e)) if look(out(tab[e])) == mine), None)
    v.need(e is not None, f'{what}: not recognised as a stored table')
    v.true(e >= d, f'{what}: degree {e} for the requested degree {d}')
    for x, y in zip(a, out(tab[e])):
        v.eq(x, y, what)
    return e


@obligation('C22', 't_design')
def _(v):
    """every degree 1..21: a stored design of at least that degree"""
    tab, n = tables(v, range(1, 22), 3)

    class Cell:
        def tolist(self):
            return [tab[d] for d in range(1, 22)]
    v.contract(grids.loadmat, lambda I, f, **k: {'t_designs': [Cell()]})
    for d in range(1, 22):
        table_of(v, v.call(grids.load_t_design, d), tab, d, n, lambda t: (t,), f't-design {d}')


@obligation('C22', 'Fliege_Maier')
def _(v):
    """every order 2..30: the directions and the weights of a stored grid of at least that order"""
    tab, n = tables(v, range(1, 31), 4)
    v.contract(grids.loadmat, lambda I, f, **k: {'fliegeNodes': Cells(tab)})
    v.contract(np.squeeze, lambda I, x, *a, **k: [tab[d] for d in range(1, 31)] if isinstance(x, Cells) else v.structure('squeeze'))
    for d in range(2, 31):
        table_of(v, v.call(grids.load_Fliege_Maier_nodes, d), tab, d, n, lambda t: (t[:, :3], t[:, 3]), f'order {d}')


class Cells:
    def __init__(self, tab):
        self.tab = tab


def named(v, f, lo, hi, key, cols, out):
    """every degree, whichever other degrees are stored: a stored table of at least that degree or the answer for a higher one, and a
    replacement is reported"""
    import warnings
    tab, n = tables(v, range(lo, hi + 1), cols)
    sub, said = [], []
    higher = out(v.array('higher', (n, cols)))

    def rec(I, e):
        """contract of the recursive call (induction over hi - degree)"""
        v.true(e > sub[0], f'degree {e} tried in place of {sub[0]}')
        sub.append(e)
        return higher if len(higher) > 1 else higher[0]
    have = {}
    v.contract(grids.loadmat, lambda I, g, **k: dict(have))
    v.contract(warnings.warn, lambda I, *a, **k: said.append(a))

    def one(d, missing):
        have.clear()
        have.update({key(e): t for e, t in tab.items() if not (missing and e == d) and not (missing is None and e >= d)})
        del sub[:], said[:]
        sub.append(d)
        try:
            got = v.call_body(f, rec, d)
        except ValueError:
            v.true(missing is None, f'degree {d} is stored and rejected')
            return
        if len(sub) > 1:
            for x, y in zip(got if isinstance(got, tuple) else (got,), higher):
                v.eq(x, y, 'the answer for the higher degree')
            v.true(missing is not False, 'replaced although stored')
        else:
            e = table_of(v, got, tab, d, n, out, f'degree {d}')
            v.true(missing is not None, 'not stored')
            v.true((e == d) is (missing is False), 'the stored table of that degree')
        if missing is not False:
            v.true(len(said) > 0, f'replacement for degree {d} is not reported')
    for d in range(lo, hi + 1):
        for missing in (False, True, None):
            v.separately(lambda: one(d, missing))


@obligation('C22', 'n_design', timeout=300)
def _(v):
    named(v, grids.load_n_design, 1, 124, lambda d: f'N{d:03}', 3, lambda t: (t,))


@obligation('C22', 'lebedev', timeout=300)
def _(v):
    four_pi = 4 * PI
    named(v, grids.load_lebedev, 3, 131, lambda d: f'lebedev_{d:03}', 4, lambda t: (t[:, :3], four_pi * t[:, 3]))


@obligation('C22', 'maxDet', timeout=300)
def _(v):
    named(v, grids.load_maxDet, 1, 200, lambda d: f'maxDet_{d:03}', 4, lambda t: (t[:, :3], t[:, 3]))


@obligation('C22', 'grid_weights')
def _(v):
    """weights of a given order on any grid that supports it: every harmonic up to that order is integrated exactly, sum 4 pi"""
    from spaudiopy import sph
    N, Q = v.int('N', 1), v.int('Q', 1)
    K = (N + 1) ** 2
    azi, zen, Y = v.array('azi', (Q,)), v.array('zen', (Q,)), v.array('Y', (Q, K))
    v.rank('col', lambda a: True)

    def sh_matrix(I, n, a, z, sh_type='complex', *r):
        v.eq(n, N, 'order')
        v.need(sh_type == 'real' and a is azi and z is zen, 'arguments of sh_matrix')
        return Y
    v.contract(sph.sh_matrix, sh_matrix)
    w = v.call(grids.calculate_grid_weights, azi, zen, N)
    v.same_shape(w, (Q,), 'one weight per direction')
    k = v.index('k', 0, K)
    v.eq(v.sum(0, Q, lambda q: v.at(w, q) * v.at(Y, q, k)), v.call(np.sqrt, 4 * PI) * S(T.ind_eq(lift(k))), 'exactness')
    v.frame()
