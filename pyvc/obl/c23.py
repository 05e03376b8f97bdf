"""C23: signal-processing helpers."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import process as pcs
from spaudiopy import utils, sig


def delta(a, b):
    return S(T.ind_eq(lift(a) - lift(b)))


# ------------------------------------------------------------------ fractional delay
@obligation('C23', 'lagrange_sum')
def _(v):
    """tap n is prod_{k <> n} (d - k)/(n - k); by the Lean lemma these sum to one, for every order and delay"""
    N, d = v.int('N', 0), v.real('d')
    h = v.call(pcs.lagrange_delay, N, d)
    v.same_shape(h, (N + 1,), 'number of taps')
    n = v.index('n', 0, N + 1)
    basis = lambda n: v.prod(0, N + 1, lambda k: delta(n, k) + (1 - delta(n, k)) * (d - k) / (n - k))
    v.eq(v.at(h, n), basis(n), 'tap')
    v.lemma('lagrange_sum')
    v.frame()


@obligation('C23', 'lagrange_small', bound='orders 0 to 6, any delay')
def _(v):
    """taps sum to one; polynomials of degree <= N are reproduced"""
    d = v.real('d')
    for N in range(7):
        h = v.call(pcs.lagrange_delay, N, d)
        for p in range(min(N, 3) + 1):
            v.eq(sum(v.at(h, n) * n ** p for n in range(N + 1)), d ** p, f'degree {p} at order {N}')


@obligation('C23', 'lagrange_integer')
def _(v):
    """an integer delay gives the unit impulse at that delay"""
    N = v.int('N', 0)
    d, n = v.index('d', 0, N + 1), v.index('n', 0, N + 1)
    h = v.call(pcs.lagrange_delay, N, d)
    if v.holds(n == d):
        v.eq(v.at(h, d), 1, 'one at the delay')
    else:
        v.eq(v.at(h, n), 0, 'zero elsewhere')


# ------------------------------------------------------------------ windows, noise
@obligation('C23', 'half_sided_hann')
def _(v):
    """N + 1 values: ones, then the falling flank of a Hann window"""
    N = v.int('N', 3)
    w = v.call(pcs.half_sided_Hann, N)
    v.same_shape(w, (N + 1,), 'length')
    M, m = (N + 1) // 2, (N - 1) // 2
    j = v.index('j', 0, N + 1 - m)
    v.eq(v.at(w, j), 1, 'unchanged part')
    k = v.index('k', 1, m + 1)
    v.eq(v.at(w, N - m + k), v.call(np.cos, S(P_(T.PI)) * k / (2 * M)) ** 2, 'flank')


def noise(v, reps, pink):
    fs = v.int('fs', 1)
    tn, tp, tf = v.real('tn', pos=True), v.real('tp', nonneg=True), v.real('tf', nonneg=True)
    n1, n2, nf = (v.call(int, fs * x) for x in (tn, tp, tf))
    v.assume(n1 >= 2)
    v.assume(n2 >= 0)
    v.assume(nf >= 2)
    v.assume(2 * nf <= n1)
    s = v.call(pcs.pulsed_noise, tn, tp, fs, reps=reps, t_fade=tf, pink_noise=pink, normalize=False)
    return n1, n2, nf, s


def pulses(v, pink):
    for reps in (1, 2, 3):
        n1, n2, nf, s = noise(v, reps, pink)
        v.same_shape(s, (reps * (n1 + n2),), 'length')
        j = v.index('j', 0, n2)
        for r in range(reps):
            if v.holds(n2 >= 1):
                v.eq(v.at(s, r * (n1 + n2) + n1 + j), 0, 'pause')
            v.eq(v.at(s, r * (n1 + n2)), 0, 'fade in starts at zero')
            v.eq(v.at(s, r * (n1 + n2) + n1 - 1), 0, 'fade out ends at zero')


@obligation('C23', 'pulsed_noise_white', bound='one to three repetitions, any durations with fade of 2 samples up to half a pulse')
def _(v):
    """reps times pulse and pause; pauses silent; fades at both ends of every pulse"""
    pulses(v, False)


@obligation('C23', 'pulsed_noise_pink', bound='one to three repetitions, any durations with fade of 2 samples up to half a pulse')
def _(v):
    """the same for pink noise, odd lengths included"""
    pulses(v, True)


# ------------------------------------------------------------------ gain limiting
def clip(v):
    n, t = v.int('n', 1), v.real('t', pos=True)
    g = v.array('g', (n,))
    r = v.call(pcs.gain_clipping, g, t)
    v.same_shape(r, (n,), 'shape')
    i, j = v.index('i', 0, n), v.index('j', 0, n)
    return g, t, r, i, j


def tanhs(v, *xs):
    th = lambda x: v.call(np.tanh, x)
    v.lemma('tanh_facts', *[f for x in xs for f in (th(x) < 1, th(x) > -1)])


@obligation('C23', 'clipping_below')
def _(v):
    """gains up to the threshold stay; at the threshold both branches agree"""
    g, t, r, i, j = clip(v)
    x = v.at(g, i)
    if v.holds(x <= t):
        v.eq(v.at(r, i), x, 'unchanged')
    else:
        u = x / t - 1
        v.eq(v.at(r, i), t * (1 + v.call(np.tanh, u)), 'limited: continuous at the threshold as tanh(0) = 0')
    v.frame()


@obligation('C23', 'clipping_bounds')
def _(v):
    """never above twice the threshold, sign kept"""
    g, t, r, i, j = clip(v)
    x, y = v.at(g, i), v.at(r, i)
    u = x / t - 1
    tanhs(v, u)
    v.true(y < 2 * t, 'twice the threshold')
    if v.holds(x > t):
        v.lemma('tanh_facts', v.call(np.tanh, u) >= 0)
        v.true(y >= t, 'stays above the threshold')
    elif v.holds(x > 0):
        v.true(y > 0, 'positive')
    elif v.holds(x < 0):
        v.true(y < 0, 'negative')
    else:
        v.eq(y, 0, 'zero')


@obligation('C23', 'clipping_monotonic')
def _(v):
    """larger gains stay larger or equal"""
    g, t, r, i, j = clip(v)
    a, b = v.at(g, i), v.at(g, j)
    v.assume(a <= b)
    ua, ub = a / t - 1, b / t - 1
    th = lambda x: v.call(np.tanh, x)
    if v.holds(b > t):
        v.lemma('tanh_facts', th(ub) >= 0)
        if v.holds(a > t):
            v.lemma('tanh_facts', th(ua) <= th(ub))
    v.true(v.at(r, i) <= v.at(r, j), 'monotonic')


# ------------------------------------------------------------------ loudness, rms, decay
def level(v, x):
    n = x.shape_[0]
    c = v.call(np.sqrt, v.call(np.mean, v.call(np.square, x), axis=0))
    return v.call(np.max, c)


def peak(v, x):
    return v.call(np.max, v.call(np.abs, x))


def loud(v, dims):
    sh = (v.int('n', 1),) + ((v.int('C', 1),) if dims == 2 else ())
    sh2 = (v.int('m', 1),) + sh[1:]
    a, b = v.array('a', sh), v.array('b', sh2)
    y = v.call(pcs.match_loudness, a, b)
    v.same_shape(y, sh, 'shape')
    la, lb = level(v, a), level(v, b)
    v.assume(la > 0)
    i = [v.index(f'i{k}', 0, s) for k, s in enumerate(sh)]
    s = lb / la
    p = peak(v, a) * s
    if v.holds(p > 1):
        v.eq(peak(v, y), 1, 'unit peak')
        v.eq(v.at(y, *i) * p, v.at(a, *i) * s, 'proportional')
    else:
        v.eq(v.at(y, *i), v.at(a, *i) * s, 'scaled signal')
        v.eq(level(v, y), lb, 'target level')
    v.frame()


@obligation('C23', 'loudness_mono')
def _(v):
    """the level is that of the target, unless the peak would exceed one: then the peak is one"""
    loud(v, 1)


@obligation('C23', 'loudness_multichannel')
def _(v):
    """the same for several channels"""
    loud(v, 2)


@obligation('C23', 'rms')
def _(v):
    """root mean square along either axis, non-negative, homogeneous"""
    n, m, c = v.int('n', 1), v.int('m', 1), v.real('c')
    for sort in 'RC':
        x = v.array('x' + sort, (n, m), sort)
        cx = Arr((lift(n), lift(m)), lambda i: lift(c) * x.at(i), sort)
        for ax, len_, oth in ((0, n, m), (1, m, n), (-1, m, n)):
            y = v.call(utils.rms, x, axis=ax)
            v.same_shape(y, (oth,), 'shape')
            k = v.index('k', 0, oth)
            e = (lambda j: v.at(x, j, k)) if ax == 0 else (lambda j: v.at(x, k, j))
            a2 = lambda z: v.call(np.abs, z) ** 2
            v.eq(v.at(y, k) ** 2 * len_, v.sum(0, len_, lambda j: e(j) * v.call(np.conj, e(j))), 'mean square')
            v.eq(v.at(v.call(utils.rms, cx, axis=ax), k), v.call(np.abs, c) * v.at(y, k), 'scaling')
            if sort == 'R':
                v.true(v.at(y, k) >= 0, 'non-negative')
    v.frame()


@obligation('C23', 'energy_decay')
def _(v):
    """remaining energy relative to the total: 10^(decay/10) never rises and is what the remaining samples contain"""
    n = v.int('n', 2)
    p = v.array('p', (n,))
    d = v.call(pcs.energy_decay, p)
    v.same_shape(d, (n,), 'length')
    i = v.index('i', 0, n - 1)
    lin = lambda k: 10 ** (v.at(d, k) / 10)
    tot = v.call(np.trapz, v.call(np.square, p))
    v.assume(tot > 0)
    v.eq(lin(i), v.sum(i, n, lambda k: v.at(p, k) ** 2) / tot, 'remaining energy')
    v.eq(lin(i) - lin(i + 1), v.at(p, i) ** 2 / tot, 'never rises')
    v.frame()


@obligation('C23', 'subband_levels')
def _(v):
    """level of a band: mean square times fs/2 over its width"""
    B, n = v.int('B', 1), v.int('n', 1)
    x, w, fs = v.array('x', (B, n)), v.array('w', (B,)), v.real('fs', pos=True)
    b = v.index('b', 0, B)
    v.assume(v.at(w, b) > 0)
    e = v.sum(0, n, lambda k: v.at(x, b, k) ** 2)
    L = v.call(pcs.subband_levels, x, w, fs)
    v.eq(v.at(L, b) ** 2, e * fs / 2 / v.at(w, b), 'amplitude')
    P = v.call(pcs.subband_levels, x, w, fs, power=True)
    v.eq(v.at(P, b), e * fs / 2 / v.at(w, b) / n, 'power')
    v.frame()


# ------------------------------------------------------------------ channels
@obligation('C23', 'interleave')
def _(v):
    """row 2c is left channel c, row 2c + 1 right channel c; different shapes are rejected"""
    C, n = v.int('C', 1), v.int('n', 1)
    l, r = v.array('l', (C, n)), v.array('r', (C, n))
    y = v.call(utils.interleave_channels, l, r)
    v.same_shape(y, (2 * C, n), 'shape')
    c, t = v.index('c', 0, C), v.index('t', 0, n)
    v.eq(v.at(y, 2 * c, t), v.at(l, c, t), 'left')
    v.eq(v.at(y, 2 * c + 1, t), v.at(r, c, t), 'right')
    v.raises(ValueError, utils.interleave_channels, l, v.array('r2', (C + v.int('d', 1), n)))
    l, r = v.array('l3', (360, n)), v.array('r3', (360, n))
    y = v.call(utils.interleave_channels, l, r, 'SSR')
    c = v.index('k', 0, 360)
    v.same_shape(y, (720, n), 'shape')
    v.eq(v.at(y, 2 * c, t), v.at(l, c, t), 'left')
    v.eq(v.at(y, 2 * c + 1, t), v.at(r, c, t), 'right')
    l, r = v.array('l4', (360 + v.int('e', 1), n)), v.array('r4', (360 + v.int('e', 1), n))
    v.raises(ValueError, utils.interleave_channels, l, r, 'SSR')
    v.frame()


@obligation('C23', 'level_difference')
def _(v):
    """interaural level differences change sign when the ears are exchanged and vanish for equal ears"""
    G, n = v.int('G', 1), v.int('n', 1)
    azi, zen = v.array('azi', (G,)), v.array('zen', (G,))
    L, R = v.array('L', (G, n)), v.array('R', (G, n))
    mk = lambda l, r: v.call(sig.HRIRs, l, r, azi, zen, 48000)
    g = v.index('g', 0, G)
    for db in (True, False):
        f = lambda l, r: v.at(v.call(pcs.ilds_from_hrirs, mk(l, r), TODB=db), g)
        v.eq(f(L, R) + f(R, L), 0, 'antisymmetric')
        v.eq(f(L, L), 0, 'equal ears')
    v.frame()
