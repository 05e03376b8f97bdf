"""C19: fractional-octave bands."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from .. import sym as Y
from ..terms import P_, ONE, ZERO
from spaudiopy import process


def smoothed(v, weighted, a=None):
    n = v.real('n', pos=True)
    N = v.int('N', 1)
    a = v.array('a', (N,)) if a is None else a(N)
    return n, N, a, v.call(process.frac_octave_smoothing, a, n, WEIGHTED=weighted)


def window(I, M):
    """np.hamming by the contract smoothing_window proves"""
    M = lift(M)
    return Arr((M,), lambda i: T.app('window', *i, M, sort='R', nn=True), 'R')


@obligation('C19', 'smoothing_constant')
def _(v):
    """the length is kept and constants are unchanged"""
    v.contract(np.hamming, window)
    for w in (False, True):
        c = v.real('c')
        n, N, a, s = smoothed(v, w, lambda N: Arr((lift(N),), lambda i: lift(c), 'R'))
        v.same_shape(s, (N,), 'length')
        i = v.index('i', 0, N)
        v.eq(v.at(s, i), c, 'constant')


@obligation('C19', 'smoothing_window')
def _(v):
    """the weights are positive (used by smoothing_range)"""
    M = v.int('M', 1)
    w = v.call(np.hamming, M)
    i = v.index('i', 0, M)
    v.same_shape(w, (M,), 'length')
    v.true(v.at(w, i) > 0, 'positive')


@obligation('C19', 'smoothing_range')
def _(v):
    """the smoothed values stay within the range of the data: every lower bound (upper bound) of the data,
    which is then the bound plus (minus) something non-negative, is one of the result"""
    v.contract(np.hamming, window)
    for w in (False, True):
        for sg in (1, -1):
            c = v.real('c')
            n, N, a, s = smoothed(v, w, lambda N: Arr((lift(N),), lambda i: lift(c) + sg * T.app('excess', *i, sort='R', nn=True), 'R'))
            i = v.index('i', 0, N)
            v.true(sg * (v.at(s, i) - c) >= 0, 'within the range')


def windows(x, r, ov):
    """first bin of a band and half length of the transition window there, for the band edge x (in bins)"""
    return S(T.floor(lift(x))), S(Y.rint(lift(ov * (r - 1) * x)))


@obligation('C19', 'filterbank_windows')
def _(v):
    """transition windows stay inside the spectrum and do not overlap, for every band edge x > 0 (in bins), band ratio
    r^2 <= 2 and overlap <= 1/2 (used for every band by the obligations below)"""
    x, r, ov = v.real('x', pos=True), v.real('r', pos=True), v.real('ov', nonneg=True)
    v.assume(r > 1)
    v.assume(r * r <= 2)
    v.assume(ov <= 0.5)
    k0, p0 = windows(x, r, ov)
    k1, p1 = windows(r * r * x, r, ov)
    v.true(p0 >= 0, 'non-negative length')
    v.true(k0 - p0 >= 0, 'inside the spectrum')
    v.true(k1 - p1 >= k0 + p0, 'no overlap')
    M, fs, f = v.int('M', 2), v.int('fs', 2), v.real('f', pos=True)
    v.assume(2 * f <= fs)
    v.true(S(T.floor(lift(2 * (M - 1) * f / fs))) <= M - 1, 'an edge up to the Nyquist frequency lies in the spectrum')


def bank(v, mode, slope):
    """filterbank of arbitrary bandwidth 1/n (n >= 1), length, rate, frequency limits and overlap"""
    n = v.real('n', pos=True)
    v.assume(n >= 1)
    M = v.int('M', 2)
    fs = v.int('fs', 2)
    f_low = v.real('f_low', pos=True)
    f_high = v.real('f_high', pos=True)
    ov = v.real('overlap', nonneg=True)
    v.assume(ov <= 0.5)
    v.assume(f_low < f_high)
    v.assume(f_low <= fs // 2)
    q = 2 ** (1 / n)
    r = q ** 0.5
    edge = lambda b: f_low * q ** b / r
    x = lambda b: 2 * (M - 1) * edge(b) / fs
    v.true(2 * edge(0) <= fs, 'first edge')

    def facts(b):
        k0, p0 = windows(x(b), r, ov)
        k1, p1 = windows(x(b + 1), r, ov)
        low = 2 * edge(b) <= fs
        imp = lambda a, c: S(ONE - lift(a) * (ONE - lift(c)))
        return p0 >= 0, k0 - p0 >= 0, k1 - p1 >= k0 + p0, imp(low, k0 <= M - 1), imp(b == 0, low)
    v.forall(facts)
    args = n, M, fs, f_low, f_high, mode, ov, slope
    v.args = args
    g, ff = v.call(process.frac_octave_filterbank, *args)
    return n, M, fs, f_low, f_high, ov, edge, lambda b: windows(x(b), r, ov), g, ff


@obligation('C19', 'filterbank_edges', timeout=300)
def _(v):
    """the band edges are adjacent and increase from zero to the Nyquist frequency"""
    n, M, fs, f_low, f_high, ov, edge, win, g, ff = bank(v, 'energy', v.int('slope', 0))
    B = g.shape_[0]
    v.same_shape(ff, (B, 3), 'one row per band')
    v.eq(v.at(ff, 0, 0), 0, 'first edge')
    v.eq(v.at(ff, S(B - 1), 2), fs / 2, 'last edge')
    b = v.index('b', 1, S(B - 1))
    v.instantiate(0, b, b - 1)
    for b in (0, b):
        v.eq(v.at(ff, b, 2), v.at(ff, b + 1, 0), 'adjacent')
        v.true(v.at(ff, b, 0) < v.at(ff, b, 2), 'increasing')
        v.true(v.at(ff, b + 1, 0) < v.at(ff, b + 1, 2), 'increasing')


@obligation('C19', 'filterbank_unity', timeout=800)
def _(v):
    """per band: the squared gain is the difference of the shares passed on by the lower and by this band edge;
    the shares start at one and end at zero, so the squared gains of the bands sum to one (telescoping)"""
    n, M, fs, f_low, f_high, ov, edge, win, g, ff = bank(v, 'energy', v.int('slope', 0))
    B = S(g.shape_[0])
    v.same_shape(g, (B, M), 'gains')
    c = v.index('c', 0, M)

    def where(b):
        k, P = win(b)
        return c < k - P, c == k + P, c > k + P

    def passed(i, b):
        return (0, 1, 1, v.at(g, b + 1, c) ** 2)[i]
    v.instantiate(0)
    for i in v.split(*where(0)):
        v.eq(v.at(g, 0, c) ** 2, 1 - passed(i, 0), 'lowest band')
    v.instantiate(B - 2)
    for i in v.split(*where(B - 2)):
        v.eq(v.at(g, B - 1, c) ** 2, passed(i, B - 2), 'highest band')
    b = v.index('b', 0, B - 2)
    v.instantiate(b, b + 1)
    for i in v.split(*where(b)):
        for j in v.split(*where(b + 1)):
            v.eq(v.at(g, b + 1, c) ** 2, passed(i, b) - passed(j, b + 1), 'band')


@obligation('C19', 'filterbank_modes', timeout=800)
def _(v):
    """amplitude gains are the squares of the energy preserving ones, for the same bands"""
    n, M, fs, f_low, f_high, ov, edge, win, g, ff = bank(v, 'energy', v.int('slope', 0))
    h, hf = v.call(process.frac_octave_filterbank, *v.args[:5], 'amplitude', *v.args[6:])
    B = S(g.shape_[0])
    v.eq(S(h.shape_[0]), B, 'number of bands')
    v.eq(S(h.shape_[1]), M, 'length')
    v.eq(S(hf.shape_[0]), B, 'number of bands')
    b, c = v.index('b', 0, B), v.index('c', 0, M)
    v.eq(v.at(h, b, c), v.at(g, b, c) ** 2, 'gain')
    for j in range(3):
        v.eq(v.at(hf, b, j), v.at(ff, b, j), 'band')
