"""C13: all-round panning and decoding."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import sph, utils, decoder
from types import SimpleNamespace

PI4 = lambda: 4 * S(P_(T.PI))
LOC = 'scipy.spatial.ConvexHull is outside the verifier: prepared layouts are any objects with points, kernel points and imaginary indices'
DIR = 'contract of sh_matrix (C04): the entry of a direction and a column is a function of both'


class Prepared:
    """layout with L real loudspeakers, n imaginary ones (last), kernel of J points; vbap represented by its contract (C11)"""

    def __init__(self, v, imaginary, default):
        self.v = v
        self.N, self.L, self.J, self.Q = N, L, J, Q = v.int('N', 1), v.int('L', 3), v.int('J', 4), v.int('Q', 1)
        self.K = (N + 1) ** 2
        h = object.__new__(decoder.LoudspeakerSetup)
        e = object.__new__(decoder.LoudspeakerSetup)
        n = v.int('n', 1) if imaginary else 0
        self.L2 = L + n
        e.npoints = self.L2
        e.points = v.array('ep', (self.L2, 3))
        e.imaginary_ls_idx = v.call(np.arange, L, self.L2) if imaginary else None
        h.npoints = L
        h.points = v.array('p', (L, 3))
        h.ambisonics_hull = e
        h.kernel_hull = SimpleNamespace(points=v.array('kp', (J, 3)), N_kernel=v.int('Nk', 1))
        h.characteristic_order = N if default else v.int('Nc', 1)
        self.arg = {} if default else dict(N_sph=N)
        self.h, self.e = h, e
        self.jobs = v.int('jobs', 1)

        def vbap(I, src, hull, norm=2, valid_simplices=None, retain_outside=False, jobs_count=1):
            if hull is not e or norm != 2 or valid_simplices is not None or retain_outside:
                v.structure('panning of the kernel')
            v.eq(src, h.kernel_hull.points, 'kernel points')
            return Arr((J, self.L2), lambda i: T.app('G', *i, sort='R'), 'R')
        v.contract(decoder.vbap, vbap)
        self.sh()

    def sh(self):
        v = self.v

        def sh_matrix(I, n, a, z, sh_type='complex'):
            if sh_type != 'real':
                v.structure('another convention')
            v.eq(n, self.N, 'order')
            a, z = v.call(np.asarray, a), v.call(np.asarray, z)
            ra, rz = a.reader(), z.reader()
            return Arr((a.shape_[0], self.K), lambda i: T.app('sh', i[1], ra(i[:1]), rz(i[:1]), sort='R'), 'R')
        v.contract(sph.sh_matrix, sh_matrix)

    def matrix(self, pts):
        """harmonics of the directions of points"""
        v = self.v
        a, z, _ = v.call(utils.cart2sph, pts[:, 0], pts[:, 1], pts[:, 2])
        return v.call(sph.sh_matrix, self.N, a, z, sh_type='real')

    def weights(self):
        v = self.v
        return v.call(sph.repeat_per_order, v.call(sph.unity_gain, v.call(sph.max_rE_weights, self.N)))


CASES = [(im, de) for im in (False, True) for de in (False, True)]


def named(fn):
    for im, de in CASES:
        name = fn.__name__ + ('_imaginary' if im else '') + ('_default' if de else '')
        obligation('C13', name, assumptions=[LOC, DIR])(
            (lambda im, de: lambda v: fn(v, Prepared(v, im, de)))(im, de))
        from ..vc import REG
        REG['C13'][name]['doc'] = (fn.__doc__ or '').strip()
    return fn


@named
def decoding(v, p):
    """out(l, t) = sum_k D(l, k) F(k, t) with D = 4 pi / J G^T Y_k diag(a): linear, sample by sample, one row per real loudspeaker"""
    Tn = v.int('T', 1)
    F = v.array('F', (p.K, Tn))
    out = v.call(decoder.allrad, F, p.h, jobs_count=p.jobs, **p.arg)
    v.same_shape(out, (p.L, Tn), 'one row per real loudspeaker')
    l, t = v.index('l', 0, p.L), v.index('t', 0, Tn)
    Yk, a, G = p.matrix(p.h.kernel_hull.points), p.weights(), lambda j: S(T.app('G', lift(j), lift(l), sort='R'))
    v.eq(v.at(out, l, t), PI4() / p.J * v.sum(0, p.K, lambda k: v.sum(0, p.J, lambda j: G(j) * v.at(Yk, j, k)) * v.at(a, k) * v.at(F, k, t)),
         'decoder matrix')
    v.frame()


@named
def consistent(v, p):
    """decoding the encoding of the sources = panning the sources"""
    src = v.array('src', (p.Q, 3))
    g = v.call(decoder.allrap, src, p.h, jobs_count=p.jobs, **p.arg)
    v.same_shape(g, (p.Q, p.L), 'one column per real loudspeaker')
    unit = src / v.call(np.linalg.norm, src, axis=1)[:, None]
    F = v.call(np.transpose, p.matrix(unit))
    out = v.call(decoder.allrad, F, p.h, jobs_count=p.jobs, **p.arg)
    l, s = v.index('l', 0, p.L), v.index('s', 0, p.Q)
    v.eq(v.at(out, l, s), v.at(g, s, l), 'decoder and panner')
    one = v.call(decoder.allrap, src[s], p.h, **p.arg)
    v.same_shape(one, (1, p.L), 'one source')
    v.eq(v.at(one, 0, l), v.at(g, s, l), 'each source alone')
    v.frame()


@named
def other_order(v, p):
    """coefficients of another order than the chosen one are rejected, as are layouts that are not prepared"""
    Tn = v.int('T', 1)
    F = v.array('F', ((p.N + v.int('x', 1) + 1) ** 2, Tn))
    for fn in (decoder.allrad, decoder.allrad2):
        v.raises(AssertionError, fn, F, p.h, **p.arg)
    F = v.array('F', (p.N ** 2, Tn))
    for fn in (decoder.allrad, decoder.allrad2):
        v.raises(AssertionError, fn, F, p.h, **p.arg)
    p.h.ambisonics_hull = []
    F = v.array('F', (p.K, Tn))
    src = v.array('src', (p.Q, 3))
    for fn in (decoder.allrad, decoder.allrad2):
        v.raises(ValueError, fn, F, p.h, **p.arg)
    for fn in (decoder.allrap, decoder.allrap2):
        v.raises(ValueError, fn, src, p.h, **p.arg)
    v.frame()


def regroup(v):
    """sum over k < (N+1)^2 = sum over n <= N of the sum over the 2n+1 columns n^2+m: induction over N"""
    f = v.array('f', (v.int('big', 1),))
    n = v.int('n_', 0)
    F = lambda k: S(T.app('f', lift(k), sort='R'))
    v.eq(v.sum(0, 1, F), F(0), 'base')
    v.eq(v.sum(0, (n + 2) ** 2, F) - v.sum(0, (n + 1) ** 2, F), v.sum(0, 2 * n + 3, lambda m: F((n + 1) ** 2 + m)), 'step')


@named
def energy(v, p):
    """energy-preserving panning: gains are square roots of non-negative numbers; with all loudspeakers real and at unit distance
    (vbap rows of unit energy, C11), a kernel exact for the products of harmonics and the addition theorem (C04), total energy one"""
    src = v.array('src', (p.Q, 3))
    seen = []

    def repeat(I, c):
        c = v.call(np.asarray, c)
        v.same_shape(c, (p.N + 1,), 'weights')
        seen.append(c)
        return Arr((p.K,), lambda i: T.app('an', *i, sort='R'), 'R')
    v.contract(sph.repeat_per_order, repeat)
    names = []

    def sh_matrix(I, n, a, z, sh_type='complex'):
        if sh_type != 'real':
            v.structure('another convention')
        v.eq(n, p.N, 'order')
        q = v.call(np.asarray, a).shape_[0]
        nm = 'Yk' if (P_(q) - lift(p.J)).is_zero() else 'Ys'
        return Arr((q, p.K), lambda i: T.app(nm, *i, sort='R'), 'R')
    v.contract(sph.sh_matrix, sh_matrix)
    delta = lambda c, d: S(T.ind_eq(lift(c) - lift(d)))
    v.gram('Yk', 0, p.J, lambda c, d: delta(c, d) * p.J / PI4())
    v.gram('G', 0, p.L, lambda c, d: 1, pos=1)
    g = v.call(decoder.allrap2, src, p.h, jobs_count=p.jobs, **p.arg)
    v.same_shape(g, (p.Q, p.L), 'one column per real loudspeaker')
    l, s = v.index('l', 0, p.L), v.index('s', 0, p.Q)
    v.true(v.at(g, s, l) >= 0, 'non-negative')
    b = lambda j: v.sum(0, p.K, lambda k: S(T.app('Ys', lift(s), lift(k), sort='R') * T.app('an', lift(k), sort='R') * T.app('Yk', lift(j), lift(k), sort='R')))
    e = lambda l: PI4() / p.J * v.sum(0, p.J, lambda j: b(j) ** 2 * S(T.app('G', lift(j), lift(l), sort='R')) ** 2)
    v.eq(v.at(g, s, l) ** 2, e(l), 'squared gains')
    if p.e.imaginary_ls_idx is None:
        t = lambda k: S(T.app('an', lift(k), sort='R').pow(2) * T.app('Ys', lift(s), lift(k), sort='R').pow(2))
        tot = PI4() / p.J * v.sum(0, p.J, lambda j: b(j) ** 2)
        v.eq(v.sum(0, p.L, lambda l: v.sum(0, p.J, lambda j: b(j) ** 2 * S(T.app('G', lift(j), lift(l), sort='R')) ** 2)) * PI4() / p.J,
             tot, 'rows of unit energy')
        v.eq(tot, v.sum(0, p.K, t), 'exact kernel')
        regroup(v)
        if len(seen) != 1:
            v.structure('weights per order')
        # an(n^2 + m) = weight of order n (C02), sum_m Ys(n^2 + m)^2 = (2n + 1) / (4 pi) (C04)
        v.eq(v.sum(0, p.N + 1, lambda n: v.at(seen[0], n) ** 2 * (2 * n + 1) / PI4()), 1, 'total energy')
    v.frame()


@named
def decoding2(v, p):
    """energy-preserving decoding: out(l, t) = 4 pi / J sum_j g(j, l) f(j, t) with the panning gains g of the kernel directions and the
    function f of the coefficients sampled there: linear, sample by sample, one row per real loudspeaker"""
    Tn = v.int('T', 1)
    F = v.array('F', (p.K, Tn))

    def allrap2(I, src, hull, N_sph=None, jobs_count=1):
        if hull is not p.h:
            v.structure('panning of the kernel')
        v.eq(src, p.h.kernel_hull.points, 'kernel points')
        v.eq(N_sph if N_sph is not None else p.h.characteristic_order, p.N, 'order')
        return Arr((p.J, p.L), lambda i: T.app('G2', *i, sort='R'), 'R')
    v.contract(decoder.allrap2, allrap2)
    out = v.call(decoder.allrad2, F, p.h, jobs_count=p.jobs, **p.arg)
    v.same_shape(out, (p.L, Tn), 'one row per real loudspeaker')
    l, t = v.index('l', 0, p.L), v.index('t', 0, Tn)
    Yk = p.matrix(p.h.kernel_hull.points)
    v.eq(v.at(out, l, t), PI4() / p.J * v.sum(0, p.J, lambda j: S(T.app('G2', lift(j), lift(l), sort='R')) *
                                              v.sum(0, p.K, lambda k: v.at(Yk, j, k) * v.at(F, k, t))), 'decoder')
    v.frame()
