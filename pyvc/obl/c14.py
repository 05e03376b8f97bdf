"""C14: sampling, mode-matching and energy-preserving decoders."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import sph, utils, decoder

PI4 = lambda: 4 * S(P_(T.PI))
LOC = 'scipy.spatial.ConvexHull is outside the verifier: the layout is any object with points, npoints and characteristic order'


class Deco:
    """layout of L loudspeakers anywhere, coefficients of order M >= N, T samples"""

    def __init__(self, v, lmin=1, default=False):
        self.v = v
        N, d, L, Tn = v.int('N', 0), v.int('d', 0), v.int('L', lmin), v.int('T', 1)
        self.N, self.L, self.T, self.K = N, L, Tn, (N + 1) ** 2
        h = object.__new__(decoder.LoudspeakerSetup)
        h.points = self.pts = v.array('pts', (L, 3))
        h.npoints = L
        h.characteristic_order = N if default else None
        self.hull = h
        self.F = v.array('F', ((N + d + 1) ** 2, Tn))
        self.Y = v.array('Y', (L, self.K))

        def contract(I, n, a, z, sh_type='real'):
            if sh_type != 'real':
                v.fail('another convention than the real one')
            v.eq(n, N, 'order')
            q = v.index('q', 0, L)
            aa, zz, _ = v.call(utils.cart2sph, v.at(self.pts, q, 0), v.at(self.pts, q, 1), v.at(self.pts, q, 2))
            v.same_shape(a, (L,), 'directions')
            v.eq(v.at(a, q), aa, 'loudspeaker azimuths')
            v.eq(v.at(z, q), zz, 'loudspeaker zeniths')
            return Arr((L, self.K), lambda i: T.app('Y', *i, sort='R'), 'R')    # a fresh array: the caller may write to it
        v.contract(sph.sh_matrix, contract)
        self.l, self.t, self.k = v.index('l', 0, L), v.index('t', 0, Tn), v.index('k', 0, self.K)


def forms(v, fn, lmin=1):
    for default in (False, True):
        f = Deco(v, lmin, default)
        out = v.call(fn, f.F, f.hull) if default else v.call(fn, f.F, f.hull, f.N)
        v.same_shape(out, (f.L, f.T), 'one channel per loudspeaker')
        yield f, out


@obligation('C14', 'sampling', assumptions=[LOC])
def _(v):
    """out(l, t) = s sum_k Y(direction of loudspeaker l, k) F(k, t) with one scale s: linear, sample by sample, coefficients above
    the order ignored; the order defaults to the characteristic order of the layout"""
    for f, out in forms(v, decoder.sad):
        N, L, K = f.N, f.L, f.K
        s = v.call(np.sqrt, PI4() / K) * v.call(np.sqrt, PI4() / L)
        v.eq(v.at(out, f.l, f.t), s * v.sum(0, K, lambda k: v.at(f.Y, f.l, k) * v.at(f.F, k, f.t)), 'evaluation')
    v.frame()


@obligation('C14', 'mode_matching', assumptions=[LOC, 'numpy.linalg.pinv is a left inverse when the layout supports the order (full column rank)'])
def _(v):
    """re-encoding the loudspeaker signals gives the scaled coefficients"""
    v.rank('col', lambda a: True)
    for f, out in forms(v, decoder.mad, 2):
        N, L, K = f.N, f.L, f.K
        s = v.call(np.sqrt, L / K)
        enc = v.sum(0, L, lambda l: v.at(f.Y, l, f.k) * v.at(out, l, f.t))
        v.eq(enc, s * v.at(f.F, f.k, f.t), 're-encoding')
    v.frame()


@obligation('C14', 'mode_matching_linear', assumptions=[LOC])
def _(v):
    """out(l, t) = sum_k D(l, k) F(k, t) with a matrix independent of the signal: linear, sample by sample"""
    for f, out in forms(v, decoder.mad):
        c = v.calls('pinv')
        if not c:
            v.structure('pseudo-inverse')
        X = c[-1].result
        if X.shape_[0] == f.L:
            v.structure('pseudo-inverse')
        s = v.call(np.sqrt, f.L / f.K)
        v.eq(v.at(out, f.l, f.t), s * v.sum(0, f.K, lambda k: v.at(X, k, f.l) * v.at(f.F, k, f.t)), 'linear')
    v.frame()


@obligation('C14', 'energy_preserving', assumptions=[LOC])
def _(v):
    """total loudspeaker energy of one sample = 4 pi / K times the energy of its coefficients, for at least as many loudspeakers as
    harmonics; the coefficient energy of a plane wave being the same from every direction (addition theorem, C04)"""
    for f, out in forms(v, decoder.epad, 2):
        v.assume(f.L >= f.K)
        N, L, K = f.N, f.L, f.K
        en = v.sum(0, L, lambda l: v.at(out, l, f.t) * v.at(out, l, f.t))
        v.eq(en, PI4() / K * v.sum(0, K, lambda k: v.at(f.F, k, f.t) * v.at(f.F, k, f.t)), 'energy')
    v.frame()


@obligation('C14', 'order_too_high_rejected', assumptions=[LOC])
def _(v):
    """coefficients of a smaller order than requested are rejected"""
    for fn in (decoder.sad, decoder.mad, decoder.epad):
        f = Deco(v)
        v.raises(AssertionError, fn, f.F, f.hull, f.N + v.int('x', 1) + v.int('d', 0))
