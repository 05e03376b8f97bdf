"""C17 signal containers, C18 saving and loading (spaudiopy.sig, spaudiopy.io)"""
import os
import json
import shutil
import tempfile
import numpy as np
import soundfile as sf
import resampy
from scipy import signal as scysig
from vlib.rt import contract
from rt import layouts as lay
import spaudiopy as spa
from spaudiopy import sig, io, decoder

FS = [44100, 48000, 16000, 100, 8]


def conv_ref(x, h, mode='full'):
    y = np.zeros(len(x) + len(h) - 1)
    for i, v in enumerate(h):
        y[i:i + len(x)] += v * x
    if mode == 'full':
        return y
    if mode == 'same':
        s = (len(y) - len(x)) // 2
        return y[s:s + len(x)]
    k = len(x) - len(h) + 1
    return y[len(h) - 1:len(h) - 1 + k]


class Ref:
    """reference: a plain list of channel arrays and a rate"""

    def __init__(self, chs, fs):
        self.chs = [np.array(c, float) for c in chs]
        self.fs = fs


def consistent(g, m, r, what):
    g.check(m.fs == r.fs, f'{what}: sampling rate {m.fs}, expected {r.fs}')
    g.check(m.num_channels == len(r.chs) == len(m.channels) and m.channel_count == len(r.chs),
            f'{what}: channel count {m.num_channels}/{m.channel_count}, expected {len(r.chs)}')
    g.check(len(m) == len(r.chs[0]), f'{what}: length {len(m)}, expected {len(r.chs[0])}')
    for i, c in enumerate(r.chs):
        g.same(m.channels[i].signal, c, f'{what}: channel {i}', tol=1e-9)
        g.check(m[i] is m.channels[i] and m.channels[i].fs == m.fs, f'{what}: channel {i} object or rate')
        g.check(len(m.channels[i]) == len(c), f'{what}: channel {i} length')
    if len({len(c) for c in r.chs}) == 1:
        g.same(m.get_signals(), np.array(r.chs), f'{what}: get_signals', tol=1e-9)
        g.same(m.signals, np.array(r.chs), f'{what}: signals', tol=1e-9)
    if isinstance(m, sig.AmbiBSignal):
        for k, nm in enumerate('WXYZ'):
            g.same(getattr(m, nm), r.chs[k], f'{what}: {nm}', tol=1e-9)


@contract('C17', cases=150, thorough=2500, fns=['sig.MultiSignal', 'sig.AmbiBSignal', 'sig.MonoSignal', 'sig.trim_audio'])
def operation_sequences(g):
    fs = g.choice(FS)
    b = g.bool(.5)
    C = 4 if b else g.int(1, 5)
    n = g.int(60, 200)
    chs = [g.normal(n) for _ in range(C)]
    m = (sig.AmbiBSignal if b else sig.MultiSignal)([c.copy() for c in chs] if g.bool() else [c.tolist() for c in chs], fs=fs)
    r = Ref(chs, fs)
    consistent(g, m, r, 'constructed')
    kept = []
    hist = []
    for step in range(g.int(1, 5)):
        n = len(r.chs[0])
        op = g.choice(['trim', 'conv', 'set', 'replace', 'resample', 'copy', 'trim_audio', 'same_rate', 'channel'])
        hist.append(op)
        g.log[:] = [f'{type(m).__name__} fs={fs} operations={hist}']
        if op in ('trim', 'trim_audio') and n > 20:
            k0 = g.int(0, n // 3)
            k1 = g.int(k0 + 5, n)
            start, stop = (k0 + .3) / r.fs, (k1 + .3) / r.fs
            if op == 'trim':
                if g.bool():
                    m.trim(start, stop)
                else:
                    m.trim(start, 1e9 if g.bool() else start, dur=stop - start)
            else:
                old = m
                m = sig.trim_audio(m, start, stop)
                g.check(type(m) is type(old), 'trim_audio keeps the kind of signal')
                kept.append((old, Ref(r.chs, r.fs)))
            r.chs = [c[k0:k1] for c in r.chs]
        elif op == 'conv':
            irs = [g.normal(g.int(1, 9)) for _ in range(C)]
            if len({len(h) for h in irs}) > 1 and g.bool(.8):
                irs = [h[:1] for h in irs] if g.bool(.3) else [np.resize(h, 5) for h in irs]
            L = len(irs[0])
            irs = [np.resize(h, L) for h in irs]
            mode = g.choice([None, 'full', 'same'])
            out = m.conv(irs, **({} if mode is None else dict(mode=mode)))
            g.check(out is m, 'conv returns the signal')
            r.chs = [conv_ref(c, h, mode or 'full') for c, h in zip(r.chs, irs)]
        elif op == 'set' and isinstance(m, sig.AmbiBSignal):
            k = g.int(0, 3)
            v = g.normal(n)
            setattr(m, 'WXYZ'[k], v.copy() if g.bool() else v.tolist())
            r.chs[k] = v
        elif op == 'replace':
            k = g.int(0, C - 1)
            v = g.normal(n)
            m.channels[k].signal = v.copy()
            r.chs[k] = v
        elif op == 'channel':
            k = g.int(0, C - 1)
            h = g.normal(1)
            m.channels[k].conv(h)
            r.chs[k] = r.chs[k] * h[0]
        elif op == 'resample' and n >= 30 and n < 2000:
            f2 = g.choice([r.fs * 2, r.fs * 3 // 2 if r.fs % 2 == 0 else r.fs * 2])
            m.resample(f2)
            r.chs = [resampy.resample(c, r.fs, f2) for c in r.chs]
            r.fs = f2
        elif op == 'same_rate':
            m.resample(r.fs)
        elif op == 'copy':
            c = m.copy()
            g.check(type(c) is type(m), 'copy keeps the kind of signal')
            kept.append((m, Ref(r.chs, r.fs)))
            m = c
        consistent(g, m, r, f'after {op}')
        for o, ro in kept:
            consistent(g, o, ro, f'earlier signal after {op} on its copy')


@contract('C17', cases=80, thorough=800, fns=['sig.MonoSignal', 'sig.MultiSignal'])
def channelwise(g):
    """every channel goes through what a single-channel signal goes through"""
    fs = g.choice(FS)
    C, n = g.int(1, 5), g.int(40, 120)
    x = g.normal(C, n)
    m = sig.MultiSignal([*x.copy()], fs=fs)
    s = [sig.MonoSignal(c.copy(), fs) for c in x]
    for c, k in zip(s, range(C)):
        g.check(len(c) == n and c.fs == fs, 'mono constructor')
        g.same(c[3:9], x[k, 3:9], 'mono indexing')
    # trimming at arbitrary times, also with times not on the sample grid
    t0 = g.real(0, n / fs * .5)
    t1 = g.real(t0 + 2 / fs, n / fs * 1.1)
    g.note(fs=fs, C=C, n=n, t0=t0, t1=t1)
    for o in [m] + s:
        o.trim(t0, t1)
    i0, i1 = int(t0 * fs), int(t1 * fs)
    for k in range(C):
        g.same(s[k].signal, x[k, i0:i1], 'mono trim')
        g.same(m[k].signal, x[k, i0:i1], 'multi trim')
    h = [g.normal(g.int(1, 6)) for _ in range(C)]
    m.conv(h)
    for k in range(C):
        s[k].conv(h[k])
        g.same(s[k].signal, conv_ref(x[k, i0:i1], h[k]) if i1 > i0 else s[k].signal, 'mono conv', 1e-9)
        g.same(m[k].signal, s[k].signal, 'multi conv equals mono conv', 1e-9)
    val = g.normal(33)
    m.apply(np.cumsum, val)
    for k in range(C):
        s[k].apply(np.cumsum, val)
        g.same(m[k].signal, s[k].signal, 'apply')
    f2 = fs * 2
    m.resample(f2)
    for k in range(C):
        s[k].resample(f2)
        g.check(s[k].fs == f2 and m[k].fs == f2 and m.fs == f2, 'rate after resampling')
        g.same(m[k].signal, s[k].signal, 'multi resample equals mono resample', 1e-9)
        g.check(len(s[k]) == 2 * 33, 'resampled length')
    g.check(m.num_channels == C and m.channel_count == C, 'channel count after resampling')


@contract('C17', cases=40, thorough=300, fns=['sig.MultiSignal', 'sig.AmbiBSignal', 'sig.AmbiBSignal.sh_to_b'])
def construction(g):
    fs, n = g.choice(FS), g.int(2, 60)
    x = g.normal(4, n)
    g.note(fs=fs, n=n)
    ms = sig.MultiSignal([*x], fs=fs)
    B = sig.AmbiBSignal.sh_to_b(ms)
    e = np.array([x[0] / np.sqrt(2) * np.sqrt(4 * np.pi), *(np.sqrt(4 * np.pi / 3) * x[[3, 1, 2]])])
    r = spa.sph.sh_to_b(x)
    g.same(B.get_signals(), r, 'sh_to_b signals')
    for k, nm in enumerate('WXYZ'):
        g.same(getattr(B, nm), r[k], f'sh_to_b channel {nm}')
    # directional consistency: X, Y, Z are proportional to ACN 3, 1, 2, W to ACN 0
    for k, a in enumerate([0, 3, 1, 2]):
        q = r[k] * np.dot(x[a], x[a]) - x[a] * np.dot(r[k], x[a])
        g.close(q, 0 * q, 'B-format channel is one harmonics channel')
        g.check(np.dot(r[k], x[a]) > 0, 'B-format channel sign')
    g.check(B.fs == fs and B.channel_count == 4, 'sh_to_b rate')
    g.same(ms.get_signals(), x, 'sh_to_b leaves its input')
    B.W = np.zeros(n)
    g.same(ms.get_signals(), x, 'sh_to_b result is independent')
    C = g.choice([1, 2, 3, 5, 7])
    g.rejects(lambda: sig.AmbiBSignal([np.ones(3)] * C, fs=fs), f'{C} channels as B-format')
    g.rejects(lambda: sig.MultiSignal([np.ones(3)] * C), 'MultiSignal without fs')
    g.rejects(lambda: sig.MultiSignal(np.ones((2, 3)), fs=fs), 'MultiSignal needs a list')
    g.rejects(lambda: sig.MultiSignal([np.ones((2, 3))], fs=fs), 'two-dimensional channel')
    m = sig.MonoSignal(g.normal(20), fs)
    g.rejects(lambda: m.trim(20.5 / fs, 30 / fs), 'trim starting after the end')
    g.rejects(lambda: ms.trim((n + .5) / fs, (n + 5) / fs), 'multi trim starting after the end')
    g.check(len(m) == 20 and len(ms) == n, 'rejected trims leave the signal')


class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vrt_')
        return lambda n: os.path.join(self.d, n)

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ C18
@contract('C18', cases=60, thorough=500, fns=['io.save_audio', 'io.load_audio', 'sig.MonoSignal.save',
                                             'sig.MonoSignal.from_file', 'sig.MultiSignal.from_file'])
def audio_round_trip(g):
    fs = g.choice([44100, 48000, 8000, 96000])
    sub, tol = g.choice([('FLOAT', 1e-7), ('DOUBLE', 1e-15), ('PCM_16', 2.0 / 32768), ('PCM_24', 2.0 / 2 ** 23)])
    C, n = g.int(1, 6), g.int(2, 300)
    x = g.rng.uniform(-1, 1, (C, n)) * .99
    if sub in ('FLOAT', 'DOUBLE') and g.bool(.3):
        x = x * 3
    kind = g.choice(['mono', 'multi', 'b', 'array', 'array1'])
    g.note(fs=fs, subtype=sub, C=C, n=n, kind=kind)
    with Tmp() as p:
        f = p('a.wav')
        if kind == 'mono':
            x = x[:1]
            s = sig.MonoSignal(x[0].copy(), fs)
        elif kind == 'b':
            x = g.rng.uniform(-1, 1, (4, n)) * .99
            s = sig.AmbiBSignal([*x.copy()], fs=fs)
        elif kind == 'multi':
            s = sig.MultiSignal([*x.copy()], fs=fs)
        elif kind == 'array':
            s = x.T.copy()
        else:
            x = x[:1]
            s = x[0].copy()
        if kind.startswith('array'):
            io.save_audio(s, f, fs=fs, subtype=sub)
        elif g.bool():
            io.save_audio(s, f, fs=g.choice([None, fs]), subtype=sub)
        else:
            s.save(f, subtype=sub)
        g.check(sf.info(f).samplerate == fs, 'file has the sampling rate of the signal')
        y = io.load_audio(f, fs=g.choice([None, fs]))
        g.check(y.fs == fs, 'loaded sampling rate')
        if len(x) == 1:
            g.check(type(y) is sig.MonoSignal, 'a single channel loads as MonoSignal')
            g.check(len(y) == n, 'loaded length')
            g.close(y.signal, x[0], 'loaded samples', tol, scale=max(1., np.abs(x).max()))
            z = sig.MonoSignal.from_file(f, fs=g.choice([None, fs]))
            g.close(z.signal, x[0], 'MonoSignal.from_file', tol, scale=max(1., np.abs(x).max()))
            g.check(z.fs == fs, 'from_file rate')
            g.rejects(lambda: sig.MultiSignal.from_file(f), 'mono file as MultiSignal')
            g.rejects(lambda: sig.MonoSignal.from_file(f, fs=fs + 1), 'other rate requested')
        else:
            g.check(type(y) is sig.MultiSignal, 'several channels load as MultiSignal')
            g.same(y.get_signals().shape, x.shape, 'loaded shape')
            g.close(y.get_signals(), x, 'loaded samples', tol, scale=max(1., np.abs(x).max()))
            cls = sig.AmbiBSignal if len(x) == 4 and g.bool() else sig.MultiSignal
            z = cls.from_file(f, fs=g.choice([None, fs]))
            g.check(type(z) is cls and z.fs == fs, 'from_file kind and rate')
            g.close(z.get_signals(), x, 'MultiSignal.from_file', tol, scale=max(1., np.abs(x).max()))
            g.rejects(lambda: sig.MonoSignal.from_file(f), 'multichannel file as MonoSignal')
            g.rejects(lambda: cls.from_file(f, fs=fs + 1), 'other rate requested')
        g.rejects(lambda: io.load_audio(f, fs=fs + 1), 'load_audio with another rate')
        g.rejects(lambda: io.load_audio([f, f], fs=g.choice([1, fs * 2])), 'load_audio with another rate, several files')
        if not kind.startswith('array'):
            before = open(f, 'rb').read()
            g.rejects(lambda: io.save_audio(s, f, fs=fs + g.choice([1, -1, 100])), 'save_audio with a contradicting rate')
            g.check(open(f, 'rb').read() == before, 'the rejected save left the file')
        else:
            g.rejects(lambda: io.save_audio(s, f), 'array without a rate')


@contract('C18', cases=40, thorough=300, fns=['io.load_audio'])
def several_files(g):
    fs = g.choice([44100, 48000])
    k, n = g.int(1, 6), g.int(2, 100)
    with Tmp() as p:
        names, chs = [], []
        for i in range(k):
            c = g.choice([1, 1, 1, 2, 3])
            x = g.rng.uniform(-1, 1, (c, n))
            f = p(f'f{g.int(0, 10**6)}_{i}.wav')
            sf.write(f, x.T if c > 1 else x[0], fs, subtype='DOUBLE')
            names.append(f)
            chs += list(x)
        g.note(fs=fs, files=k, channels=len(chs), n=n)
        y = io.load_audio(names if g.bool() else tuple(names), fs=g.choice([None, fs]))
        if len(chs) == 1:
            g.check(type(y) is sig.MonoSignal, 'kind')
            g.same(y.signal, chs[0], 'samples')
        else:
            g.same(y.get_signals(), np.array(chs), 'channels in file order')
            g.check(y.channel_count == len(chs), 'channel count')
        g.check(y.fs == fs, 'rate')
        f = p('other.wav')
        sf.write(f, np.zeros(n), fs // 2)
        pos = g.int(0, k)
        bad = names[:pos] + [f] + names[pos:]
        g.rejects(lambda: io.load_audio(bad), f'files of different rates (other at position {pos})')
        g.rejects(lambda: io.load_audio(bad, fs=fs), 'files of different rates')


def layout_state(h):
    return h.ambisonics_hull


@contract('C18', cases=40, thorough=300, fns=['io.save_layout', 'io.load_layout'], budget=40)
def layout_round_trip(g):
    p0 = lay.dome(g)
    if g.bool(.3):
        p0 = p0 * g.real(.8, 3)
    h = lay.setup(p0)
    h.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150)
    k = g.int(0, 3)
    rr = np.mean(h.d)
    if k == 0:
        imag = None
    elif k == 1:
        imag = np.array([0, 0, -rr])
    elif k == 2:
        imag = np.array([[0, 0, -rr]]) * g.real(.9, 1.2)
    else:
        a = g.real(0, 6)
        imag = rr * np.array([[.45 * np.cos(a + q), .45 * np.sin(a + q), -.9] for q in (0, 2.1, 4.2)])
    h.ambisonics_setup(update_hull=True, imaginary_ls=imag, N_kernel=3, characteristic_order=g.choice([None, 2]))
    n, A = h.npoints, h.ambisonics_hull
    gains = g.rng.uniform(.2, 2, n)
    h.ls_gains = gains.copy()
    g.note(points=p0, imag=imag, gains=gains)
    with Tmp() as p:
        f = p('l.json')
        io.save_layout(f, h, name='x')
        data = json.load(open(f))
        ls = data['LoudspeakerLayout']['Loudspeakers']
        mark = np.isin(np.arange(A.npoints), A.imaginary_ls_idx)
        g.check(len(ls) == A.npoints, 'one entry per loudspeaker')
        g.same([bool(e['IsImaginary']) for e in ls], mark, 'imaginary marks in the file')
        g.same([e['Gain'] for e in ls], [*gains, *np.zeros(A.npoints - n)], 'gains in the file')
        g.same([e['Channel'] for e in ls], np.arange(A.npoints) + 1, 'channels in the file')
        q = np.array([[np.cos(np.deg2rad(e['Azimuth'])) * np.cos(np.deg2rad(e['Elevation'])),
                       np.sin(np.deg2rad(e['Azimuth'])) * np.cos(np.deg2rad(e['Elevation'])),
                       np.sin(np.deg2rad(e['Elevation']))] for e in ls]) * np.array([[e['Radius']] for e in ls])
        tol = .005 + 1e-4 * max(1, np.max(A.d)) * 2
        g.close(q, A.points, 'positions in the file', tol, scale=1.)
        ex = np.linalg.norm(A.points, axis=1)
        g.check(np.abs(np.array([e['Radius'] for e in ls]) - ex) < .00501, 'radius in the file to two decimals')
        el = 90 - np.rad2deg(np.arccos(np.clip(A.points[:, 2] / ex, -1, 1)))
        g.check(np.abs(np.array([e['Elevation'] for e in ls]) - el) < .00502, 'elevation in the file to two decimals')
        az = np.rad2deg(np.arctan2(A.points[:, 1], A.points[:, 0]))
        daz = (np.array([e['Azimuth'] for e in ls]) - az + 180) % 360 - 180
        g.check((np.abs(daz) < .00502) | (np.abs(el) > 89.9), 'azimuth in the file to two decimals')
        # a reader may find the loudspeakers in any order: imaginary ones first, in between, or last
        perm = np.arange(len(ls)) if g.bool(.5) else g.rng.permutation(len(ls))
        data['LoudspeakerLayout']['Loudspeakers'] = [ls[i] for i in perm]
        if g.bool(.2):
            for e in data['LoudspeakerLayout']['Loudspeakers']:
                del e['Gain']
            gains = np.ones(n)
        json.dump(data, open(f, 'w'))
        h2 = io.load_layout(f, N_kernel=3)
        order = [i for i in perm if not mark[i]]
        order_i = [i for i in perm if mark[i]]
        g.same(h2.points.shape, (n, 3), 'number of real loudspeakers')
        g.close(h2.points, A.points[order], 'loaded real positions in order', tol, scale=1.)
        g.same(h2.ls_gains, gains[order], 'gains attached to their loudspeakers')
        g.close(h2.ambisonics_hull.points, A.points[order + order_i], 'loaded positions, imaginary last', tol, scale=1.)
        g.same(np.isin(np.arange(A.npoints), h2.ambisonics_hull.imaginary_ls_idx),
               [False] * n + [True] * (A.npoints - n), 'loaded imaginary marks')
        # a second save/load keeps everything
        io.save_layout(p('m.json'), h2)
        l2 = json.load(open(p('m.json')))['LoudspeakerLayout']['Loudspeakers']
        for e, i in zip(l2, order + order_i):
            g.check(e['IsImaginary'] == ls[i]['IsImaginary'], 'second save: imaginary mark')
            g.close(e['Radius'], ls[i]['Radius'], 'second save: radius', .011)
            g.close(e['Elevation'], ls[i]['Elevation'], 'second save: elevation', .011, scale=1)
    h3 = lay.setup(p0)
    with Tmp() as p:
        g.rejects(lambda: io.save_layout(p('n.json'), h3), 'layout without ambisonics hull')


@contract('C18', cases=25, thorough=150, fns=['io.load_layout'])
def layout_file(g):
    """explicit files: any order, all-real layouts are accepted when a hull without imaginary ones exists"""
    pts = lay.dome(g)
    n = len(pts)
    azi, zen, r = spa.utils.cart2sph(*pts.T)
    ent = [dict(Azimuth=round(float(np.rad2deg(a)) + g.choice([0, 360]), 2), Elevation=round(90 - float(np.rad2deg(z)), 2),
                Radius=round(float(q), 2), IsImaginary=False, Channel=i + 1, Gain=round(g.real(.1, 2), 3))
           for i, (a, z, q) in enumerate(zip(azi, zen, r))]
    ims = [dict(Azimuth=0., Elevation=-90., Radius=1.0, IsImaginary=True, Channel=n + 1, Gain=0.)]
    allx = ent + ims
    perm = g.rng.permutation(len(allx))
    allx = [allx[i] for i in perm]
    off = g.choice([None, [0.02, -0.03, 0.01]])
    g.note(perm=perm, off=off)
    with Tmp() as p:
        json.dump({'Name': 'a', 'LoudspeakerLayout': {'Loudspeakers': allx}}, open(p('a.json'), 'w'))
        h = io.load_layout(p('a.json'), listener_position=off, N_kernel=3)
    exp = [pts[i] for i in perm if i < n]
    g.close(h.points, np.array(exp) - np.array(off or [0, 0, 0]), 'positions', .02, scale=1.)
    g.same(h.ls_gains, [ent[i]['Gain'] for i in perm if i < n], 'gains in loudspeaker order')
    g.same(np.ravel(h.ambisonics_hull.imaginary_ls_idx), [n], 'imaginary index')


@contract('C18', cases=25, thorough=200, fns=['io.save_layout', 'io.load_layout'])
def layout_without_imaginary(g):
    pts = lay.full(g)
    h = lay.setup(pts)
    h.ambisonics_setup(update_hull=False, characteristic_order=1, N_kernel=3)
    try:
        h.get_characteristic_order()
        lay.setup(pts).get_characteristic_order()
    except ValueError:
        g.skip()
    h.ls_gains = g.rng.uniform(.2, 2, h.npoints)
    g.note(points=pts)
    with Tmp() as p:
        io.save_layout(p('a.json'), h)
        h2 = io.load_layout(p('a.json'), N_kernel=3)
    g.close(h2.points, h.points, 'positions', .005 + 2e-4 * np.max(h.d), scale=1.)
    g.close(h2.ambisonics_hull.points, h.points, 'ambisonics hull positions', .005 + 2e-4 * np.max(h.d), scale=1.)
    g.same(h2.ls_gains, h.ls_gains, 'gains')
    g.check(np.size(h2.ambisonics_hull.imaginary_ls_idx) == 0, 'no imaginary loudspeakers')
