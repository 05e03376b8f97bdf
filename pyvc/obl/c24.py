"""C24: magnitude least-squares binaural filters."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from .. import interp as IP
from .. import sym as Y
from ..terms import P_, ONE, ZERO
from spaudiopy import decoder, sph, sig


class Design:
    """arbitrary responses of G directions and L taps, order N, matrix Y of harmonics and X in place of its pseudo-inverse"""

    def __init__(self, v, mode, X=None, hrirs=None, trans=True):
        self.v = v
        self.G, self.L, self.N = v.int('G', 1), v.int('L', 1), v.int('N', 1)
        G, L, N = self.G, self.L, self.N
        self.Q = (N + 1) ** 2
        fs = v.int('fs', 1)
        self.fs = fs
        self.azi, self.zen = v.array('azi', (G,)), v.array('zen', (G,))
        self.l, self.r = v.array('hl', (G, L)), v.array('hr', (G, L))
        self.ft = v.real('f', pos=True) if trans else None
        v.holds(G == 1)
        v.holds(L >= 1025)
        self.delay = (v.real('d0'), v.real('d1'))
        self.mode = mode
        self.X = X

        def matrix(I, n, azi, zen, kind):
            v.eq(n, N, 'order')
            if kind != 'real':
                v.fail('kind of harmonics')
            a, z = I.call(np.asarray, (azi,), {}), I.call(np.asarray, (zen,), {})
            return Arr((a.shape_[0], lift(self.Q)), lambda i: T.app('Y', i[1], a.reader()(i[:1]), z.reader()(i[:1]), sort='R'), 'R')
        v.contract(sph.sh_matrix, matrix)

        def pinv(I, a, *r, **k):
            return Arr((a.shape_[1], a.shape_[0]), lambda i: lift(self.X(S(i[0]), S(i[1]))) if self.X else T.app('X', *i, sort='R'), 'R')
        v.contract(np.linalg.pinv, pinv)

        def angle(I, z):
            return Y.emap(lambda p: T.lift_args(lambda x, y: T.app('angle', x, y, sort='R'), [p.re(), p.im()]), z, sort='R')
        v.contract(np.angle, angle)          # any function of the value

        def irfft(I, x, n=None, axis=-1):
            self.spec = x
            self.n = S(lift(n))
            return Arr(x.shape_[:-1] + (lift(n),), lambda i: T.app('x', *i, sort='R'), 'R')
        v.contract(np.fft.irfft, irfft)

    def run(self, l=None, r=None, delay=None):
        v = self.v
        H = v.call(sig.HRIRs, self.l if l is None else l, self.r if r is None else r, self.azi, self.zen, self.fs)
        self.out = v.call(decoder.magls_bin, H, self.N, self.ft, self.mode, self.delay if delay is None else delay)
        return self


@obligation('C24', 'shape')
def _(v):
    def window(I, M):
        u = lambda i: T.app('u', *i, lift(M), sort='R', nn=True)
        return Arr((lift(M),), lambda i: u(i) / (ONE + u(i)), 'R')
    v.contract(np.hanning, window)
    d = Design(v, 'delay').run()
    v.same_shape(d.out, (2, d.Q, d.L), 'filters')


MODES = 'delay', 'avg', 'angle'


def designs(v, **k):
    """designs with every kind of phase continuation; a transition frequency too low for estimating the slope is rejected"""
    for mode in MODES:
        d = Design(v, mode, **k)
        try:
            yield d.run()
        except AssertionError:
            if mode == 'delay':
                raise


def bins(d):
    return S(d.spec.shape_[-1])


@obligation('C24', 'least_squares_below_transition')
def _(v):
    """a bin at least one bin below the transition frequency: the pseudo-inverse applied to the spectra of the responses"""
    for d in designs(v):
        v.same_shape(d.spec, (2, d.Q, d.n // 2 + 1), 'spectrum')
        j, k = v.index('j', 0, d.Q), v.index('k', 0, bins(d) - 1)
        v.assume((k + 1) * d.fs / d.n <= d.ft)
        for a in v.extremal(sum(v.at(d.spec, e, j, k) for e in (0, 1)), k, k + 1):
            if v.holds(k >= a):
                v.true((k - a) * d.fs / d.n >= 0, 'monotone frequencies')
                v.assume((k - a) * d.fs / d.n >= 0)
        for e, h in enumerate((d.l, d.r)):
            H = v.call(np.fft.rfft, h, n=d.n)
            v.eq(v.at(d.spec, e, j, k), v.sum(0, d.G, lambda g: S(T.app('X', lift(j), lift(g), sort='R')) * v.at(H, g, k)), 'least squares')


@obligation('C24', 'magnitude')
def _(v):
    """for every matrix in place of the pseudo-inverse, in particular one that picks a single direction: the target has the magnitude of the
    response at that direction, in every bin"""
    g = v.int('g', 0)
    for d in designs(v, X=lambda j, i: S(T.ind_eq(lift(i - g)))):
        v.assume(g < d.G)
        j, k = v.index('j', 0, d.Q), v.index('k', 0, bins(d))
        for e, h in enumerate((d.l, d.r)):
            H = v.at(v.call(np.fft.rfft, h, n=d.n), g, k)
            X = S(IP.unfold(lift(v.at(d.spec, e, j, k))))
            v.eq(X * X.conj(), H * H.conj(), 'magnitude')


@obligation('C24', 'ears')
def _(v):
    """exchanged ears and delays: exchanged filters"""
    for d in designs(v):
        a = d.spec
        d.run(d.r, d.l, d.delay[::-1])
        j, k = v.index('j', 0, d.Q), v.index('k', 0, bins(d))
        for e in (0, 1):
            v.eq(v.at(a, e, j, k), v.at(d.spec, 1 - e, j, k), 'spectrum')


@obligation('C24', 'window')
def _(v):
    """the tapering window lies between zero and one (used by taper)"""
    M = v.int('M', 1)
    w = v.call(np.hanning, M)
    v.same_shape(w, (M,), 'length')
    i = v.index('i', 0, M)
    v.true(v.at(w, i) >= 0, 'window')
    v.true(v.at(w, i) <= 1, 'window')


@obligation('C24', 'taper')
def _(v):
    """one real filter per ear and harmonic with the length of the responses: the first samples of the inverse transform times a window
    common to all, between zero and one"""
    def window(I, M):
        u = lambda i: T.app('u', *i, lift(M), sort='R', nn=True)
        return Arr((lift(M),), lambda i: u(i) / (ONE + u(i)), 'R')
    v.contract(np.hanning, window)
    d = Design(v, 'delay').run()
    v.same_shape(d.out, (2, d.Q, d.L), 'filters')
    v.true(d.n >= d.L, 'transform length')
    j, t = v.index('j', 0, d.Q), v.index('t', 0, d.L)
    ref = None
    for e in (0, 1):
        x = T.app('x', P_(e), lift(j), lift(t), sort='R')
        r = IP.split_linear(lift(v.at(d.out, e, j, t)), x.as_atom().id)
        if r is None:
            v.structure('window')
        w, rest = r
        v.zero(rest, 'nothing else')
        if ref is None:
            ref = w
            v.true(S(w) >= 0, 'window')
            v.true(S(w) <= 1, 'window')
            if not w.fv.isdisjoint(lift(j).fv):
                v.structure('window depends on the harmonic')
        v.zero(w - ref, 'same window')
