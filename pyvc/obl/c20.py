"""C20: binaural rendering."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import sig, decoder, parsa, utils, io

NEAR = 'contract of nearest_hrirs (C25): the pair returned for one direction is a function of that direction, of the stored length'


def ind(c):
    return S(P_(lift(c)))


def hrirs(v):
    """a set of responses, represented by the contract of its lookup"""
    n = v.int('n', 2)
    H = object.__new__(sig.HRIRs)
    H.num_samples, H.fs = n, v.int('fs', 1)
    H.azi, H.zen = v.array('azi', (v.int('G', 1),)), v.array('zen', (v.int('G', 1),))
    H.num_grid_points = v.int('G', 1)
    H.left, H.right = v.array('L', (v.int('G', 1), n)), v.array('R', (v.int('G', 1), n))

    def nearest(I, me, azi, zen):
        if me is not H:
            v.structure('another set of responses')
        azi, zen = (x[0] if isinstance(x, Arr) and x.ndim else x for x in (azi, zen))
        r = lambda nm: Arr((lift(n),), lambda i: T.app(nm, lift(azi), lift(zen), i[0], sort='R'), 'R')
        return r('hl'), r('hr')
    v.contract(sig.HRIRs.nearest_hrirs, nearest)
    return H, n


def response(ear, azi, zen, t):
    return S(T.app('hl' if ear == 0 else 'hr', lift(azi), lift(zen), lift(t), sort='R'))


def delta(a):
    return S(T.ind_eq(lift(a)))


@obligation('C20', 'harmonics')
def _(v):
    """rendering harmonics signals: ear e at time t is the sum over all channels of the full convolution, for every number of channels,
    signal and filter length"""
    K, n, k = v.int('K', 1), v.int('n', 1), v.int('k', 1)
    x, h = v.array('x', (K, n)), v.array('h', (2, K, k))
    out = v.call(decoder.sh2bin, x, h)
    v.same_shape(out, (2, n + k - 1), 'two ears, full length')
    t = v.index('t', 0, n + k - 1)
    for e in range(2):
        v.eq(v.at(out, e, t), v.sum(0, K, lambda c: v.sum(0, n, lambda a: v.sum(0, k, lambda b: v.at(x, c, a) * v.at(h, e, c, b)
                                                                                * delta(a + b - t)))), 'superposition')
    v.frame()


@obligation('C20', 'harmonics_rejection')
def _(v):
    """channels of signal and filters must match"""
    K, n, k, d = v.int('K', 1), v.int('n', 1), v.int('k', 1), v.int('d', 1)
    v.raises(AssertionError, decoder.sh2bin, v.array('x', (K, n)), v.array('h', (2, K + d, k)))
    v.raises(AssertionError, decoder.sh2bin, v.array('y', (K + d, n)), v.array('h2', (2, K, k)))
    v.raises(AssertionError, decoder.sh2bin, v.array('z', (n,)), v.array('h3', (2, n, k)))


@obligation('C20', 'samples', assumptions=[NEAR])
def _(v):
    """every sample times the response of its direction, added at its own time"""
    H, n = hrirs(v)
    N = v.int('N', 1)
    p, a, z = v.array('p', (N,)), v.array('a', (N,)), v.array('z', (N,))
    l, r = v.call(parsa.render_bsdm, p, a, z, H)
    for e, y in enumerate((l, r)):
        v.same_shape(y, (N + n - 1,), 'full length')
        t = v.index('t', 0, N + n - 1)
        v.eq(v.at(y, t), v.sum(0, N, lambda i: v.sum(0, n, lambda b: v.at(p, i) * response(e, v.at(a, i), v.at(z, i), b) * delta(i + b - t))),
             'samples at their time')
    v.frame()


def setup(v):
    h = object.__new__(decoder.LoudspeakerSetup)
    L = v.int('L', 1)
    h.points, h.npoints, h.a = v.array('pt', (L, 3)), L, v.real('ex', nonneg=True)
    h.listener_position = v.array('lp', (3,))
    return h, L


@obligation('C20', 'loudspeakers', assumptions=[NEAR])
def _(v):
    """sum over the loudspeakers of signal / distance^a convolved with the responses of the direction relative to listener and
    orientation; a signal is skipped only if it stays below 1e-5"""
    H, n = hrirs(v)
    h, L = setup(v)
    N = v.int('N', 1)
    x = v.array('x', (L, N))
    o = v.reals('o0 o1')
    l, r = v.call(decoder.LoudspeakerSetup.binauralize, h, x, H.fs, orientation=tuple(o), hrirs=H)
    rel = lambda c, k: v.at(h.points, c, k) - v.at(h.listener_position, k)

    def direction(c):
        return v.call(utils.cart2sph, *[rel(c, k) for k in range(3)])
    t = v.index('t', 0, N + n - 1)

    def scaled(c, a):
        return v.at(x, c, a) / direction(c)[2] ** h.a

    def gate(c):
        row = Arr((lift(N),), lambda i: lift(scaled(c, S(i[0]))), 'R')
        return ind(v.call(any, v.call(np.abs, row) > 10e-6))

    for e, y in enumerate((l, r)):
        v.same_shape(y, (N + n - 1,), 'full length')

        def term(c):
            az, ze, _ = direction(c)
            return gate(c) * v.sum(0, N, lambda a: v.sum(0, n, lambda b: scaled(c, a) * response(e, az - o[0], ze - o[1], b) * delta(a + b - t)))
        v.eq(v.at(y, t), v.sum(0, L, term), 'superposition')
    v.frame()


@obligation('C20', 'default_responses', assumptions=[NEAR])
def _(v):
    """without responses the default ones of the signal's rate are used; another rate is rejected"""
    H, n = hrirs(v)
    h, L = setup(v)
    x = v.array('x', (L, v.int('N', 1)))
    o = tuple(v.reals('o0 o1'))

    def load(I, fs, filename=None, jobs_count=None):
        v.eq(fs, H.fs, 'rate')
        return H
    v.contract(io.load_hrirs, load)
    a = v.call(decoder.LoudspeakerSetup.binauralize, h, x, H.fs, orientation=o)
    b = v.call(decoder.LoudspeakerSetup.binauralize, h, x, H.fs, orientation=o, hrirs=H)
    v.eq(a, b, 'default responses')
    v.raises(AssertionError, decoder.LoudspeakerSetup.binauralize, h, x, H.fs + v.int('d', 1), hrirs=H)
    v.raises(AssertionError, decoder.LoudspeakerSetup.binauralize, h, v.array('y', (L + v.int('d', 1), v.int('N', 1))), H.fs, hrirs=H)


@obligation('C20', 'loudspeaker_signals')
def _(v):
    """loudspeaker l plays the signal times its gain, sample by sample; no signal means a unit signal"""
    h, L = setup(v)
    N = v.int('N', 1)
    g, x = v.array('g', (N, L)), v.array('x', (N,))
    out = v.call(decoder.LoudspeakerSetup.loudspeaker_signals, h, g, x)
    v.same_shape(out, (L, N), 'one row per loudspeaker')
    l, t = v.index('l', 0, L), v.index('t', 0, N)
    v.eq(v.at(out, l, t), v.at(g, t, l) * v.at(x, t), 'gain')
    out = v.call(decoder.LoudspeakerSetup.loudspeaker_signals, h, g)
    v.eq(v.at(out, l, t), v.at(g, t, l), 'unit signal')
    v.raises(AssertionError, decoder.LoudspeakerSetup.loudspeaker_signals, h, v.array('h', (N, L + v.int('d', 1))), x)
    v.frame()


@obligation('C20', 'spatial_responses', assumptions=[NEAR])
def _(v):
    """responses rendered over loudspeakers are the binaural rendering of the (equalised) loudspeaker signals"""
    H, n = hrirs(v)
    h, L = setup(v)
    N = v.int('N', 1)
    g, p = v.array('g', (N, L)), v.array('p', (N,))
    v.contract(io.load_hrirs, lambda I, fs, filename=None, jobs_count=None: H)
    xs = v.call(decoder.LoudspeakerSetup.loudspeaker_signals, h, g, p)
    ref = v.call(decoder.LoudspeakerSetup.binauralize, h, xs, H.fs, hrirs=H)
    out = v.call(parsa.render_binaural_loudspeaker_sdm, p, g, h, H.fs, post_eq_func=None)
    v.eq(out, ref, 'no equalisation')
    eq = Arr((lift(L), lift(N)), lambda i: T.app('equalised', *i, sort='R'), 'R')
    seen = []

    def post(I, x, p2, fs, setup, **k):
        v.eq(x, xs, 'loudspeaker signals')
        v.eq(p2, p, 'pressure')
        v.eq(fs, H.fs, 'rate')
        v.true(setup is h, 'setup')
        seen.append(k)
        return eq
    v.contract(parsa.sdm_post_equalization, post)
    ref = v.call(decoder.LoudspeakerSetup.binauralize, h, eq, H.fs, hrirs=H)
    out = v.call(parsa.render_binaural_loudspeaker_sdm, p, g, h, H.fs, soft_clip=False)
    v.eq(out, ref, 'default equalisation')
    v.true(seen == [dict(soft_clip=False)], 'options are passed on')
    v.raises(AssertionError, parsa.render_binaural_loudspeaker_sdm, p, v.array('g2', (N + v.int('d', 1), L)), h, H.fs, post_eq_func=None)
    v.frame()


def brirs(v, render, what):
    """the file: row of sample t holds left and right of head rotation 0, left and right of rotation 1 degree, ...; no sample beyond one,
    all scaled by one common factor, which is one unless a sample exceeds one"""
    saved = []

    def save(I, signal, filename, fs=None, subtype='FLOAT'):
        saved.append((signal, filename, fs, subtype))
    v.contract(io.save_audio, save)
    fs, T_, res = render()
    if len(saved) != 1:
        v.structure('one file')
    x, name, f, sub = saved[0]
    v.true(name == 'brirs.wav', 'file name')
    v.eq(f, fs, 'rate')
    v.same_shape(x, (T_, 720), 'left and right of 360 rotations')
    a, t = v.index('a', 0, 360), v.index('t', 0, T_)
    for e in range(2):
        y = v.at(x, t, 2 * a + e)
        ms = v.extrema((2 * a + e, t), y)
        if len(ms) != 1:
            v.structure('one search for the peak')
        peak = ms[0]
        v.true(peak >= abs(res(e, a, t)), 'the peak is that of all responses')
        v.true(y <= 1, 'no clipping')
        v.true(y >= -1, 'no clipping')
        scale = 1 if v.holds(peak <= 1) else peak
        v.eq(y * scale, res(e, a, t), 'interleaved pairs in rotation order')
    v.frame()


def pair(v, T_, name, *key):
    return tuple(Arr((lift(T_),), lambda i, nm=nm: T.app(name + nm, *[lift(k) for k in key], i[0], sort='R'), 'R') for nm in 'lr')


def loudspeaker_case(v, name, jobs):
    H, n = hrirs(v)
    h, L = setup(v)
    N = v.int('N', 1)
    x = v.array('x', (L, N))
    T_ = N + n - 1

    def binauralize(I, me, sigs, fs, orientation=(0, 0), hrirs=None):
        if me is not h or sigs is not x or hrirs is not H:
            v.structure('rendering of other signals')
        v.eq(fs, H.fs, 'rate')
        v.eq(orientation[1], 0, 'no tilt')
        return pair(v, T_, 'b', orientation[0])
    v.contract(decoder.LoudspeakerSetup.binauralize, binauralize)

    def render():
        v.call(io.write_ssr_brirs_loudspeaker, name, x, h, H.fs, hrirs=H, **jobs)
        pi = S(P_(T.PI))
        return H.fs, T_, lambda e, a, t: S(T.app('b' + 'lr'[e], lift(a * pi / 180), lift(t), sort='R'))
    brirs(v, render, 'loudspeakers')


@obligation('C20', 'room_responses_loudspeaker', assumptions=[NEAR])
def _(v):
    """binaural room responses of a layout: the rendering for every head rotation; see brirs"""
    for name in ('brirs', 'brirs.wav'):
        loudspeaker_case(v, name, {})


@obligation('C20', 'room_responses_samples', assumptions=[NEAR])
def _(v):
    """binaural room responses of direction samples: the sources rotate against the head; see brirs"""
    H, n = hrirs(v)
    N = v.int('N', 1)
    p, a, z = v.array('p', (N,)), v.array('a', (N,)), v.array('z', (N,))
    pi = S(P_(T.PI))
    T_ = N + n - 1

    def res(e, g, t):
        return v.sum(0, N, lambda i: v.sum(0, n, lambda b: v.at(p, i) * response(e, v.at(a, i) - g * pi / 180, v.at(z, i), b)
                                           * delta(i + b - t)))

    def render():
        v.call(io.write_ssr_brirs_sdm, 'brirs', p, a, z, H.fs, hrirs=H)
        return H.fs, T_, res
    brirs(v, render, 'samples')
