"""C19 fractional octave processing, C20 binaural rendering, C23 signal processing helpers"""
import os
import shutil
import tempfile
import warnings
from unittest import mock
import numpy as np
import soundfile as sf
import resampy
from vlib.rt import contract
from rt import layouts as lay
from rt.c17_18 import conv_ref, Tmp
import spaudiopy as spa
from spaudiopy import process, decoder, parsa, io, sig, utils


# ------------------------------------------------------------------ C19
@contract('C19', cases=160, thorough=2500, fns=['process.frac_octave_filterbank'])
def filterbank(g):
    n = g.choice([1, 1, 2, 3, 4, 6, 12])
    fs = g.choice([44100, 48000, 16000, 96000, 22050, 8000])
    N_out = g.choice([2 ** k + 1 for k in range(6, 15)] + [g.int(40, 6000), 8192, 1000])
    f_low = float(g.choice([50, 62.5, 100, 125, 200, 500, 1000, g.real(30, 2000)]))
    # precondition: first band edge, its overlap and the band spacing exist on the frequency grid
    overlap = g.choice([.5, .5, .25, .1, .4, g.real(0.02, .5)])
    f_high = g.choice([None, None, 8000., 4000., fs / 2, fs * .3, 20000.])
    mode = g.choice(['energy', 'energy', 'amplitude', 'pressure'])
    slope = g.choice([0, 1, 2, 3, 3, 4])
    N = 2 * (N_out - 1)
    w = 2 ** (1 / (2 * n))
    df = fs / N
    bw = (f_low - f_low / w) / df          # half band width in bins
    if f_low * w >= (f_high or fs / 2) or f_low >= fs / 2 or f_low / w < df:
        g.skip()
    g.note(n=n, N_out=N_out, fs=fs, f_low=f_low, f_high=f_high, mode=mode, overlap=overlap, slope_l=slope)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        G, ff = process.frac_octave_filterbank(n, N_out, fs, f_low, f_high=f_high, mode=mode, overlap=overlap,
                                               slope_l=slope)
    g.check(G.shape[1] == N_out and ff.shape == (G.shape[0], 3), f'shapes {G.shape}, {ff.shape}')
    S = np.sum(G ** 2 if mode == 'energy' else G, axis=0)
    # bands narrower than one bin may coincide; the property speaks of bands that exist on the grid
    if bw * overlap < 1 and bw < 1.5:
        g.check(np.all(np.isfinite(G)), 'finite gains')
    g.close(S, np.ones(N_out), 'sum over bands', 1e-9)
    g.check(np.all(G >= -1e-12) and np.all(G <= 1 + 1e-12), f'gains in [0,1], got {G.min()} .. {G.max()}')
    act = G > 1e-9
    g.check(np.all(act.sum(0) <= 2), 'at most two bands active')
    idx = np.arange(G.shape[0])[:, None]
    lo = np.where(act, idx, 10 ** 6).min(0)
    hi = np.where(act, idx, -1).max(0)
    g.check(np.all(hi - lo <= 1), 'active bands are adjacent')
    g.check(ff[0, 0] == 0 and abs(ff[-1, 2] - fs / 2) < 1e-9, 'edges run from zero to the Nyquist frequency')
    g.close(ff[1:, 0], ff[:-1, 2], 'edges are adjacent', 1e-12)
    edges = np.r_[ff[:, 0], ff[-1, 2]]
    if f_high is None or f_high >= 0:
        g.check(np.all(np.diff(edges[:-1]) > 0), f'edges increase: {edges}')
        g.check(edges[-1] > edges[-2], f'edges increase up to the Nyquist frequency: {edges[-3:]}')
    # each band occupies its frequency range: centre of every transition at its band edge
    f = np.linspace(0, fs / 2, N_out)
    for b in range(1, len(ff)):
        mid = (G[b - 1] ** (2 if mode == 'energy' else 1))
        k = int(np.floor(ff[b, 0] / df + 1e-9))
        kk = [q for q in (k - 1, k, k + 1) if 0 <= q < N_out]
        g.check(any(abs(mid[q] - .5) < 1e-9 for q in kk) or bw * overlap < .5,
                f'crossover of band {b - 1} and {b} at its edge {ff[b, 0]:.1f} Hz')
    g.rejects(lambda: process.frac_octave_filterbank(n, N_out, fs, f_low, overlap=g.real(.51, 2)), 'overlap above 0.5')
    g.rejects(lambda: process.frac_octave_filterbank(n, N_out, fs, f_low, mode='x'), 'unknown mode')


@contract('C19', cases=120, thorough=1500, fns=['process.frac_octave_smoothing'])
def smoothing(g):
    L = g.choice([1, 2, 3, 5, g.int(1, 300), g.int(1, 40)])
    n = g.choice([1, 2, 3, 6, 8, 12, 24, 0.5])
    W = g.bool()
    a = g.choice([g.normal(L), np.abs(g.normal(L)), g.rng.uniform(3, 9, L)])
    g.note(a=a, n=n, W=W)
    s = process.frac_octave_smoothing(a if g.bool() else a.tolist(), n, WEIGHTED=W)
    g.check(s.shape == (L,), f'length {s.shape}, expected {L}')
    eps = 1e-9 * max(1, np.abs(a).max())
    g.check(np.all(s >= a.min() - eps) and np.all(s <= a.max() + eps), 'smoothed values within the range of the data')
    c = g.real(-5, 5)
    g.close(process.frac_octave_smoothing(np.full(L, c), n, W), np.full(L, c), 'constants unchanged', 1e-9)
    # bandwidth: only bins of the fractional octave around a bin matter
    if L > 3:
        k = g.int(0, L - 1)
        b = a.copy()
        b[k] += 1
        d = np.abs(process.frac_octave_smoothing(b, n, W) - s) > 1e-12
        i = np.arange(L)
        lo, hi = np.floor(i / 2 ** (1 / (2 * n))), np.clip(np.ceil(i * 2 ** (1 / (2 * n))), 1, L)
        g.check(np.all(d <= ((k >= lo) & (k < hi))), 'a bin only influences its fractional octave')
        g.check(np.all(d >= ((k >= lo) & (k < hi))), 'a bin influences its whole fractional octave')
    x, y = g.normal(L), g.normal(L)
    g.close(process.frac_octave_smoothing(x + 2 * y, n, W),
            process.frac_octave_smoothing(x, n, W) + 2 * process.frac_octave_smoothing(y, n, W), 'linear', 1e-9)


# ------------------------------------------------------------------ C20
def hrirs(g, fs=48000, taps=None, n=None):
    n = n or g.int(8, 40)
    taps = taps or g.int(1, 30)
    a, z = utils.vec2dir(g.unit(n)).T
    if g.bool(.3):
        z[0] = g.choice([0, np.pi])
    return sig.HRIRs(g.normal(n, taps), g.normal(n, taps), a + g.choice([0, 2 * np.pi]), z, fs)


def nearest(h, azi, zen):
    """indices of the entries within numerical reach of the smallest central angle"""
    v = np.array([np.cos(azi) * np.sin(zen), np.sin(azi) * np.sin(zen), np.cos(zen)])
    w = np.array([np.cos(h.azi) * np.sin(h.zen), np.sin(h.azi) * np.sin(h.zen), np.cos(h.zen)]).T
    d = w @ v
    return np.flatnonzero(d > d.max() - 1e-9), int(np.argmax(d))


def rms_ok(a):
    return float(np.sqrt(np.mean(np.square(a))) + 1e-30)


def reference_binaural(g, pts, x, a, h, ori):
    r = np.linalg.norm(pts, axis=1)
    out = np.zeros((2, x.shape[1] + len(h) - 1))
    for p, q, s in zip(pts, r, x):
        s = s / q ** a
        if np.max(np.abs(s)) <= 1e-5:
            continue
        azi, zen = np.arctan2(p[1], p[0]) - ori[0], np.arccos(p[2] / q) - ori[1]
        c, i = nearest(h, azi, zen)
        if len(c) > 1:
            g.skip()
        out[0] += conv_ref(s, h.left[i])
        out[1] += conv_ref(s, h.right[i])
    return out


@contract('C20', cases=80, thorough=1000, fns=['decoder.LoudspeakerSetup.binauralize'])
def loudspeakers(g):
    pts = lay.full(g, 12)
    off = g.choice([None, None, np.array([.1, -.05, .08])])
    h = decoder.LoudspeakerSetup(*pts.T, listener_position=off)
    if off is not None:
        pts = pts - off
    h.a = g.choice([1, 1, 2, 0, .5])
    H = hrirs(g)
    S = g.int(1, 40)
    x = g.normal(len(pts), S)
    for i in range(len(x)):
        k = g.int(0, 5)
        if k == 0:
            x[i] = 0
        elif k == 1:
            x[i] = 0
            x[i, g.int(0, S - 1)] = g.choice([-1, 1])      # a sparse signal
        elif k == 2:
            x[i] = -np.abs(x[i])
        elif k == 3:
            x[i] *= 3e-4
    ori = (0, 0) if g.bool(.3) else (g.real(-4, 4), g.choice([0, 0, g.real(-1, 1)]))
    g.note(points=pts, a=h.a, orientation=ori, S=S, taps=len(H))
    l, r = h.binauralize(x, 48000, orientation=ori, hrirs=H)
    e = reference_binaural(g, pts, x, h.a, H, ori)
    g.same(l, e[0], 'left ear signal', 1e-9)
    g.same(r, e[1], 'right ear signal', 1e-9)
    y = g.normal(*x.shape)
    x2 = g.normal(*x.shape)
    A = np.array(h.binauralize(2 * x2 - 3 * y, 48000, ori, H))
    B = 2 * np.array(h.binauralize(x2, 48000, ori, H)) - 3 * np.array(h.binauralize(y, 48000, ori, H))
    g.close(A, B, 'linear in the loudspeaker signals', 1e-9)
    g.rejects(lambda: h.binauralize(x, 44100, hrirs=H), 'other sampling rate')
    g.rejects(lambda: h.binauralize(x[:-1], 48000, hrirs=H), 'one signal missing')


@contract('C20', cases=60, thorough=800, fns=['decoder.sh2bin'])
def harmonics(g):
    N = g.int(0, 5)
    K = (N + 1) ** 2
    S, L = g.choice([1, 2, g.int(1, 300)]), g.choice([1, 2, g.int(1, 200)])
    x, H = g.normal(K, S), g.normal(2, K, L)
    g.note(N=N, S=S, L=L)
    y = decoder.sh2bin(x, H)
    e = np.array([sum(conv_ref(x[k], H[c, k]) for k in range(K)) for c in range(2)])
    g.same(y, e, 'sum of channel convolutions', 1e-9)
    x2 = g.normal(K, S)
    g.close(decoder.sh2bin(x - 2 * x2, H), y - 2 * decoder.sh2bin(x2, H), 'linear', 1e-9)
    g.rejects(lambda: decoder.sh2bin(g.normal(K + 1, S), H), 'channel mismatch')


@contract('C20', cases=60, thorough=800, fns=['parsa.render_bsdm', 'parsa._render_bsdm_sample'])
def sdm(g):
    H = hrirs(g)
    n = g.int(1, 60)
    p = g.normal(n)
    p[g.rng.random(n) < .2] = 0
    phi, theta = g.dirs(n)
    e = np.zeros((2, n + len(H) - 1))
    for i in range(n):
        c, j = nearest(H, phi[i], theta[i])
        if len(c) > 1:
            g.skip()
        e[0, i:i + len(H)] += p[i] * H.left[j]
        e[1, i:i + len(H)] += p[i] * H.right[j]
    g.note(p=p, phi=phi, theta=theta, taps=len(H))
    l, r = parsa.render_bsdm(p, phi, theta, H, jobs_count=1)
    g.same(l, e[0], 'left', 1e-9)
    g.same(r, e[1], 'right', 1e-9)
    l2, r2 = parsa.render_bsdm(-3 * p, phi, theta, H)
    g.close(np.array([l2, r2]), -3 * e, 'linear', 1e-9)


@contract('C20', cases=4, thorough=30, fns=['parsa.render_bsdm'])
def sdm_parallel(g):
    H = hrirs(g)
    n = g.int(20, 60)
    p = g.normal(n)
    phi, theta = g.dirs(n)
    a = parsa.render_bsdm(p, phi, theta, H, jobs_count=1)
    b = parsa.render_bsdm(p, phi, theta, H, jobs_count=g.choice([2, 3]))
    g.close(np.array(b), np.array(a), 'parallel rendering', 1e-9)


@contract('C20', cases=30, thorough=300, fns=['parsa.render_binaural_loudspeaker_sdm', 'decoder.LoudspeakerSetup.loudspeaker_signals'])
def loudspeaker_sdm(g):
    pts = lay.full(g, 10)
    h = lay.setup(pts)
    H = hrirs(g)
    n = g.int(1, 30)
    p = g.normal(n)
    gains = np.abs(g.normal(n, len(pts))) * (g.rng.random((n, len(pts))) < .6)
    g.note(points=pts, n=n)
    x = h.loudspeaker_signals(gains, p)
    g.same(x, (gains * p[:, None]).T, 'loudspeaker signals')
    g.same(h.loudspeaker_signals(gains), gains.T, 'loudspeaker signals without input')
    e = reference_binaural(g, pts, x, 1, H, (0, 0))
    with mock.patch.object(io, 'load_hrirs', lambda fs, *a, **k: H):
        l, r = parsa.render_binaural_loudspeaker_sdm(p, gains, h, 48000, post_eq_func=None)
        g.same(np.array([l, r]), e, 'binaural loudspeaker rendering', 1e-9)

        def eq(ls, q, fs, setup, k=1):
            g.check(np.array_equal(q, p) and fs == 48000 and setup is h, 'arguments of the post equaliser')
            return k * ls
        l, r = parsa.render_binaural_loudspeaker_sdm(p, gains, h, 48000, post_eq_func=eq, k=2.)
        # gate: signals that became audible by the equaliser may be added
        e2 = reference_binaural(g, pts, 2 * x, 1, H, (0, 0))
        g.same(np.array([l, r]), e2, 'post equaliser result is rendered', 1e-9)
    g.rejects(lambda: h.loudspeaker_signals(gains[:, :-1], p), 'gain per loudspeaker')


def check_ssr(g, f, exp, fs):
    y, q = sf.read(f)
    g.check(q == fs, 'sampling rate of the BRIR file')
    g.check(y.shape[1] == 720, '720 channels')
    m = np.max(np.abs(exp))
    if m > 1:
        exp = exp / m
    g.same(y.T, exp, 'interleaved left/right pairs in rotation order', 1e-6)
    g.check(np.max(np.abs(y)) <= 1 + 1e-6, 'no clipping')


@contract('C20', cases=4, thorough=30, fns=['io.write_ssr_brirs_loudspeaker'], budget=30)
def ssr_loudspeaker(g):
    pts = lay.full(g, 6)
    h = lay.setup(pts)
    H = hrirs(g, taps=g.int(2, 6), n=g.int(20, 60))
    x = g.normal(len(pts), g.int(2, 6)) * g.choice([.01, .1, 1])
    g.note(points=pts, x=x)
    e = np.zeros((720, x.shape[1] + len(H) - 1))
    for a in range(360):
        e[2 * a:2 * a + 2] = reference_binaural(g, pts, x, 1, H, (np.deg2rad(a), 0))
    with Tmp() as p:
        jobs = 1 if g.index % 4 else 2
        io.write_ssr_brirs_loudspeaker(p('a.wav') if g.bool() else p('a'), x, h, 48000, hrirs=H, jobs_count=jobs)
        check_ssr(g, p('a.wav'), e, 48000)


@contract('C20', cases=5, thorough=40, fns=['io.write_ssr_brirs_sdm'], budget=30)
def ssr_sdm(g):
    H = hrirs(g, taps=g.int(2, 6), n=g.int(20, 60))
    n = g.int(2, 6)
    q = g.normal(n) * g.choice([.05, 1])
    phi, theta = g.dirs(n)
    g.note(p=q, phi=phi, theta=theta)
    e = np.zeros((720, n + len(H) - 1))
    for a in range(360):
        for i in range(n):
            c, j = nearest(H, phi[i] - np.deg2rad(a), theta[i])
            if len(c) > 1:
                g.skip()
            e[2 * a, i:i + len(H)] += q[i] * H.left[j]
            e[2 * a + 1, i:i + len(H)] += q[i] * H.right[j]
    with Tmp() as p:
        io.write_ssr_brirs_sdm(p('a.wav') if g.bool() else p('a'), q, phi, theta, 48000, hrirs=H)
        check_ssr(g, p('a.wav'), e, 48000)


# ------------------------------------------------------------------ C23
@contract('C23', cases=120, thorough=1500, fns=['process.lagrange_delay'])
def lagrange(g):
    N = g.int(0, 12)
    d = g.choice([g.real(0, N), g.real(-1, N + 1), float(g.int(0, N)), N / 2 + g.real(-1, 1)])
    h = process.lagrange_delay(N, d)
    g.note(N=N, d=d)
    g.check(h.shape == (N + 1,), 'N + 1 taps')
    g.close(np.sum(h), 1, 'taps sum to one', 1e-10 * 10 ** (N / 3), scale=1.)
    # exact on polynomials up to the order
    n = np.arange(N + 1)
    for k in range(min(N, 3) + 1):
        g.close(np.sum(h * n ** k), d ** k if k else 1., f'degree {k} interpolated', 1e-9 * 10 ** (N / 3))
    k = g.int(0, N)
    h = process.lagrange_delay(N, k)
    g.close(h, np.eye(N + 1)[k], 'integer delay is a unit impulse', 1e-12)


@contract('C23', cases=60, thorough=200, fns=['process.half_sided_Hann'])
def half_hann(g):
    N = g.index + 3 if g.index < 40 else g.int(3, 500)
    w = process.half_sided_Hann(N)
    g.note(N=N)
    g.check(w.shape == (N + 1,), f'{len(w)} values for order {N}')
    k = (N - 1) // 2
    g.close(w[:N + 1 - k], np.ones(N + 1 - k), 'first part is one', 1e-15)
    t = w[N + 1 - k:]
    g.check(np.all(np.diff(np.r_[1., t]) < 0) and np.all(t > 0), 'strictly falling positive taper')
    M = (N + 1) // 2
    # falling flank of a Hann window of length 2 M + 1, the trailing zero left out
    j = np.arange(2 * M + 1)[-M:-1] if M > 1 else np.array([])
    e = .5 - .5 * np.cos(2 * np.pi * np.arange(2 * M + 1) / (2 * M))
    g.same(t, e[-(M):-1][-k:] if k else t, 'Hann flank', 1e-12)
    g.rejects(lambda: process.half_sided_Hann(g.int(0, 2)), 'order below three')


@contract('C23', cases=80, thorough=600, fns=['process.pulsed_noise'])
def pulsed(g):
    fs = g.choice([8000, 11025, 1000])
    n1, n2, nf = g.int(8, 90), g.choice([0, 1, g.int(0, 60)]), g.choice([0, 1, 2, 3, g.int(0, 4)])
    nf = min(nf, n1 // 2)
    reps = g.int(1, 5)
    pink, norm = g.bool(), g.bool()
    t = [(k + .3) / fs for k in (n1, n2, nf)]
    g.note(fs=fs, noise=n1, pause=n2, fade=nf, reps=reps, pink=pink, norm=norm)
    seed = g.int(0, 10 ** 6)
    np.random.seed(seed)
    s = process.pulsed_noise(t[0], t[1], fs, reps=reps, t_fade=t[2], pink_noise=pink, normalize=norm)
    g.check(s.shape == (reps * (n1 + n2),), f'{len(s)} samples, expected {reps} x ({n1} + {n2})')
    S = s.reshape(reps, n1 + n2)
    g.check(np.all(S[:, n1:] == 0), 'pauses are silent')
    if norm:
        g.close(np.max(np.abs(s)), 1, 'normalised peak', 1e-12)
    # the fades multiply the same noise drawn without fades
    np.random.seed(seed)
    full = process.pulsed_noise(t[0], t[1], fs, reps=reps, t_fade=0, pink_noise=pink, normalize=False).reshape(S.shape)
    np.random.seed(seed)
    raw = process.pulsed_noise(t[0], t[1], fs, reps=reps, t_fade=t[2], pink_noise=pink, normalize=False).reshape(S.shape)
    m = np.ones(n1)
    if nf:
        x = np.linspace(0, np.pi / 2, nf)
        m[:nf] *= np.sin(x) ** 2
        m[n1 - nf:] *= np.cos(x) ** 2
    g.close(raw[:, :n1], full[:, :n1] * m, 'fade in and out at the ends of every pulse', 1e-9)
    g.check(np.all(full[:, :n1] != 0), 'noise in every sample of the pulse')
    for i in range(reps):
        for j in range(i):
            g.check(not np.allclose(full[i, :n1], full[j, :n1]), 'repetitions are independent')
    np.random.seed(seed)
    white = np.random.randn(n1)
    if not pink:
        g.close(full[0, :n1], white, 'white noise', 1e-12)
    else:
        X = np.fft.rfft(full[0, :n1])
        W = np.fft.rfft(white)
        e = W / np.sqrt(np.arange(len(W)) + 1)
        g.close(X, e, 'pink noise power falls as 1/f', 1e-9)


@contract('C23', cases=80, thorough=800, fns=['process.gain_clipping'])
def clipping(g):
    t = g.choice([1., 1., 10 ** g.real(-2, 2)])
    x = np.sort(np.r_[t * g.rng.uniform(-3, 5, 40), t, 0, t * 100, -t * 50, t * (1 + 1e-6), t * (1 - 1e-6)])
    if g.bool(.2):
        x = np.asfortranarray(x[:46].reshape(2, 23))
    g.note(t=t, x=x)
    x0 = x.copy()
    y = process.gain_clipping(x, t)
    g.check(np.array_equal(x, x0), 'argument unchanged')
    g.check(y.shape == x.shape, 'shape')
    lowmask = x <= t
    g.close(y[lowmask], x[lowmask], 'unchanged up to the threshold', 1e-12, scale=t)
    g.check(np.all(y <= 2 * t * (1 + 1e-12)), 'never above twice the threshold')
    g.check(np.all(np.sign(y) == np.sign(x)), 'sign kept')
    g.check(np.all(y[~lowmask] >= t * (1 - 1e-12)), 'gains above the threshold stay above it')
    xr, yr = x.ravel(), y.ravel()
    o = np.argsort(xr, kind='stable')
    g.check(np.all(np.diff(yr[o]) >= -1e-12 * t), 'monotonic')
    g.check(np.all(np.diff(yr[o]) <= np.diff(xr[o]) + 1e-9 * t), 'continuous (slope at most one)')
    g.close(yr, np.where(xr <= t, xr, t * (1 + np.tanh(xr / t - 1))), 'soft clipping curve', 1e-9, scale=t)


@contract('C23', cases=80, thorough=800, fns=['process.match_loudness'])
def loudness(g):
    sh = g.choice([(g.int(2, 80),), (g.int(2, 80), g.int(1, 4))])
    a = g.normal(*sh) * 10 ** g.real(-3, 1)
    b = g.normal(g.int(2, 50), *sh[1:]) * 10 ** g.real(-3, .7)
    if a.ndim == 2 and a.shape[1] > 1 and g.bool(.3):
        a[:, 0] = 0
    g.note(a=a, b=b)
    y = process.match_loudness(a, b)

    def lev(x):
        return np.max(np.sqrt(np.mean(x ** 2, axis=0)))
    g.check(y.shape == a.shape, 'shape')
    e = a * lev(b) / lev(a)
    if np.max(np.abs(e)) > 1:
        g.close(np.max(np.abs(y)), 1, 'unit peak when the target level would clip', 1e-9)
        g.close(y * np.max(np.abs(e)), e, 'proportional', 1e-9)
    else:
        g.close(lev(y), lev(b), 'target level', 1e-9, scale=lev(b))
        g.close(y, e, 'scaled signal', 1e-9, scale=np.max(np.abs(e)))
    g.check(np.max(np.abs(y)) <= 1 + 1e-9, 'peak at most one')


@contract('C23', cases=60, thorough=500, fns=['utils.interleave_channels', 'utils.rms', 'process.energy_decay'])
def small_helpers(g):
    c, n = g.int(1, 6), g.int(1, 30)
    L, R = g.normal(c, n), g.normal(c, n)
    y = utils.interleave_channels(L, R)
    g.note(c=c, n=n)
    g.check(y.shape == (2 * c, n), 'interleaved shape')
    for k in range(c):
        g.same(y[2 * k], L[k], 'left channel in place')
        g.same(y[2 * k + 1], R[k], 'right channel in place')
    g.rejects(lambda: utils.interleave_channels(L, g.normal(c + 1, n)), 'different shapes')
    g.rejects(lambda: utils.interleave_channels(L, R, style='SSR'), 'SSR needs 360 channels')
    if g.index % 10 == 0:
        a = utils.interleave_channels(g.normal(360, 2), g.normal(360, 2), style='SSR')
        g.check(a.shape == (720, 2), 'SSR shape')
    ax = g.choice([0, 1, -1])
    X = g.choice([L, L + 1j * R])
    v = utils.rms(X, axis=ax)
    g.check(np.all(np.abs(np.imag(v)) < 1e-12) and np.all(np.real(v) >= 0), 'rms is non-negative')
    g.close(v, np.sqrt(np.mean(np.abs(X) ** 2, axis=ax)), 'rms', 1e-12)
    k = g.real(-4, 4)
    g.close(utils.rms(k * X, axis=ax), abs(k) * v, 'rms scales with the signal', 1e-9)
    g.close(utils.rms(0 * X, axis=ax), 0 * np.abs(v), 'rms of silence', 1e-15)
    m = g.int(3, 60)
    p = g.normal(m)
    p[g.rng.random(m) < .3] = 0
    p[0] = p[1] = p[-2] = 1
    rd = process.energy_decay(p)
    g.check(rd.shape == (m,), 'decay length')
    d = np.diff(rd[np.isfinite(rd)])
    g.check(np.all(d <= 1e-9), 'energy decay never rises')
    e = np.cumsum(p[::-1] ** 2)[::-1]
    fin = e > 0
    g.close((rd - rd[0])[fin], 10 * np.log10(e[fin] / e[0]), 'decay follows the remaining energy', 1e-8)


@contract('C23', cases=14, thorough=120, fns=['process.ilds_from_hrirs', 'process.itds_from_hrirs'], budget=25)
def interaural(g):
    n, T, fs = g.int(1, 4), g.int(90, 200), g.choice([44100, 48000])
    a, z = g.dirs(n)
    t = np.arange(T)
    if g.bool():
        L, R = g.normal(n, T) * np.exp(-t / 20), g.normal(n, T) * np.exp(-t / 20)
    else:
        d = g.rng.integers(20, 60, (2, n))
        L = np.array([np.exp(-.5 * ((t - k) / 6.) ** 2) for k in d[0]]) * g.rng.uniform(.2, 2, (n, 1))
        R = np.array([np.exp(-.5 * ((t - k) / 6.) ** 2) for k in d[1]]) * g.rng.uniform(.2, 2, (n, 1))
    A, B, E = sig.HRIRs(L, R, a, z, fs), sig.HRIRs(R, L, a, z, fs), sig.HRIRs(L, L, a, z, fs)
    g.note(n=n, T=T, fs=fs)
    for db in (True, False):
        x = process.ilds_from_hrirs(A, TODB=db)
        g.check(x.shape == (n,), 'one level difference per direction')
        g.close(process.ilds_from_hrirs(B, TODB=db), -x, 'level difference antisymmetric', 1e-8)
        g.close(process.ilds_from_hrirs(E, TODB=db), 0 * x, 'level difference zero for equal ears', 1e-8)
    q = sig.HRIRs(3 * L, L, a, z, fs)
    g.close(process.ilds_from_hrirs(q), np.full(n, 20 * np.log10(3)), 'louder left ear is positive', 1e-8)
    x = process.itds_from_hrirs(A)
    g.check(x.shape == (n,), 'one time difference per direction')
    y = process.itds_from_hrirs(B)
    # antisymmetric up to ties of the correlation maximum and its edges
    fs4 = 4 * fs
    edge = T * 4 // 2 - 2
    for i in range(n):
        if abs(round(x[i] * fs4)) < edge and abs(round(y[i] * fs4)) < edge:
            g.check(abs(x[i] + y[i]) * fs4 <= 1.01, f'time difference antisymmetric: {x[i] * fs4}, {y[i] * fs4} samples')
    g.close(process.itds_from_hrirs(E), 0 * x, 'time difference zero for equal ears', 1e-12)
    k = g.int(5, 25)
    pulse = np.exp(-.5 * ((t - 40) / 6.) ** 2)
    dl = np.exp(-.5 * ((t - 40 - k) / 6.) ** 2)
    if T >= 140:
        q = sig.HRIRs(np.array([pulse]), np.array([dl]), [0.], [1.], fs)
        g.close(process.itds_from_hrirs(q), [k / fs], 'left ear first is positive', 2.0 / fs4, scale=1.)
