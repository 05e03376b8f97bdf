"""C10: spherical filterbank."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import sph

PI4 = lambda: 4 * S(P_(T.PI))
EXACT = 'sector layout: sum over sectors of conj(Y_a) Y_b = J/(4 pi) delta_ab (integrates products exactly)'
UNS = 'addition theorem at equal directions: sum_m |Y_nm|^2 is the same for every direction'
TYPES = ('real', 'complex')


def delta(a, b):
    return S(T.ind_eq(lift(a) - lift(b)))


class Bank:
    def __init__(self, v, t):
        self.v, self.t = v, t
        self.N, self.J = v.int('N', 0), v.int('J', 1)
        N, J = self.N, self.J
        K = self.K = (N + 1) ** 2
        self.azi, self.zen, self.c = v.array('azi', (J,)), v.array('zen', (J,)), v.array('c', (N + 1,))
        self.sort = 'R' if t == 'real' else 'C'
        y00 = v.call(np.sqrt, 1 / PI4())
        self.y00 = y00
        raw = v.array('Y', (J, K), self.sort)
        # the zeroth harmonic is the constant 1/sqrt(4 pi)
        self.Y = Arr((J, K), lambda i: lift(y00) if i[1].is_zero() else raw.at(i), self.sort)
        self.Y.protected = 'Y'

        def contract(I, n, a, z, sh_type='real'):
            if sh_type != t:
                v.fail('another convention than requested')
            v.eq(n, N, 'order')
            v.eq(a, self.azi, 'azimuths')
            v.eq(z, self.zen, 'zeniths')
            return self.Y
        v.contract(sph.sh_matrix, contract)
        self.a, self.b = v.index('a', 0, K), v.index('b', 0, K)

    def exact(self):
        v, J = self.v, self.J
        v.gram('Y', 0, J, lambda a, b: J / PI4() * delta(a, b))
        v.law(lambda k: v.sum(0, J, lambda j: v.at(self.Y, j, k)), 1, lambda k: J * self.y00 * delta(k, 0))

    def design(self, mode):
        return self.v.call(sph.design_sph_filterbank, self.N, self.azi, self.zen, self.c, mode, self.t)

    def BA(self, A, B):
        v = self.v
        return v.sum(0, self.J, lambda j: v.at(B, self.a, j) * v.at(A, j, self.b))


def analysis(f, v, A):
    v.same_shape(A, (f.J, f.K), 'shape')
    n = v.index('n', 0, f.N + 1)
    m = v.index('m', -n, n + 1)
    j = v.index('j', 0, f.J)
    col = n * n + n + m
    v.eq(v.at(A, j, col), v.at(f.c, n) * v.at(f.Y, j, col), 'analysis')


@obligation('C10', 'analysis')
def _(v):
    """the analysis matrix is the weighted harmonics of the sector directions, in every mode"""
    for t in TYPES:
        f = Bank(v, t)
        v.nonzero(v.at(f.c, 0))
        for mode in ('perfect', 'energy', 'pinv'):
            A, B = f.design(mode)
            analysis(f, v, A)
            v.same_shape(B, (f.K, f.J), 'shape of the synthesis')
        v.raises(ValueError, sph.design_sph_filterbank, f.N, f.azi, f.zen, f.c, 'nonsense', t)
    v.frame()


def perfect(v, t):
    f = Bank(v, t)
    v.nonzero(v.at(f.c, 0))
    f.exact()
    A, B = f.design('perfect')
    v.nonzero(v.at(v.call(sph.repeat_per_order, f.c), f.a))
    v.eq(f.BA(A, B), delta(f.a, f.b), 'identity')
    v.frame()


@obligation('C10', 'perfect_real', assumptions=[EXACT])
def _(v):
    """synthesis after analysis is the identity, for every order, layout and weights without zeros (real convention)"""
    perfect(v, 'real')


@obligation('C10', 'perfect_complex', assumptions=[EXACT])
def _(v):
    """synthesis after analysis is the identity (complex convention)"""
    perfect(v, 'complex')


def energy_mode(v, t):
    f = Bank(v, t)
    f.exact()
    v.assume(v.at(f.c, 0) > 0)
    A, B = f.design('energy')
    v.nonzero(v.at(v.call(sph.repeat_per_order, f.c), f.a))
    M = f.BA(A, B)
    d = delta(f.a, f.b)
    f.a = f.b = S(P_(0))
    s = f.BA(A, B)
    v.eq(M, d * s, 'one common scalar')
    en = v.sum(0, f.K, lambda k: v.call(np.real, v.at(A, 0, k) * S(lift(v.at(A, 0, k)).conj())))
    v.assume(en > 0)        # squared magnitudes of weights that are not all zero
    v.true(s > 0, 'positive')
    v.frame()


@obligation('C10', 'energy_real', assumptions=[EXACT])
def _(v):
    """the energy mode is one positive scalar times the identity (real convention)"""
    energy_mode(v, 'real')


@obligation('C10', 'energy_complex', assumptions=[EXACT])
def _(v):
    """the energy mode is one positive scalar times the identity (complex convention)"""
    energy_mode(v, 'complex')


@obligation('C10', 'pinv', assumptions=['numpy.linalg.pinv is a left inverse of a matrix of full column rank', 'two sectors at least'])
def _(v):
    """pseudo-inverse mode: identity when the sector responses have full column rank"""
    for t in TYPES:
        f = Bank(v, t)
        v.rank('col', lambda a: True)
        v.assume(f.J >= 2)
        A, B = f.design('pinv')
        v.eq(f.BA(A, B), delta(f.a, f.b), 'identity ' + t)
    v.frame()


def factors(v, t):
    f = Bank(v, t)
    f.exact()
    v.nonzero(v.at(f.c, 0))
    A, B = f.design('pinv')
    ys = v.array('ys', (f.K,), f.sort)
    yc = lambda k: S(lift(v.at(ys, k)).conj())
    E = v.real('E', pos=True)
    cs = lambda k: v.at(v.call(sph.repeat_per_order, f.c), k)
    w = Arr((f.K,), lambda i: v.at(A, 0, S(i[0])).p, f.sort)
    ba = v.call(sph.sph_filterbank_reconstruction_factor, w, f.J, mode='amplitude')
    v.law(lambda: v.sum(0, f.K, lambda k: cs(k) * cs(k) * v.at(ys, k) * yc(k)), 0, lambda: E)
    v.law(lambda j: v.sum(0, f.K, lambda k: cs(k) * cs(k) * v.at(f.Y, j, k) * S(lift(v.at(f.Y, j, k)).conj())), 1, lambda j: E)
    bn = v.call(sph.sph_filterbank_reconstruction_factor, w, f.J, mode='energy')
    resp = lambda j: v.sum(0, f.K, lambda k: v.at(A, j, k) * yc(k))
    tot = v.sum(0, f.J, lambda j: resp(j) * S(lift(resp(j)).conj()))
    v.eq(bn * tot, 1, 'energy factor')
    tot = v.sum(0, f.J, resp)
    v.eq(ba * tot, yc(0) / f.y00, 'amplitude factor')
    v.raises(ValueError, sph.sph_filterbank_reconstruction_factor, w, f.J, mode='nonsense')


@obligation('C10', 'factors_real', assumptions=[EXACT, UNS])
def _(v):
    """amplitude / energy reconstruction factor: summed (squared) sector responses to a plane wave from anywhere are one"""
    factors(v, 'real')


@obligation('C10', 'factors_complex', assumptions=[EXACT, UNS])
def _(v):
    """amplitude / energy reconstruction factor (complex convention)"""
    factors(v, 'complex')
