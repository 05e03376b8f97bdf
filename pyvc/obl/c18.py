"""C18: saving and loading.  Contract of the files: reading gives what was written, to the format's resolution."""
import json
import os
import numpy as np
import soundfile as sf
from ..vc import obligation
from ..sym import S, Arr, SList, Masked, lift, mk
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import io, sig, utils, decoder
from spaudiopy.sig import MonoSignal, MultiSignal, AmbiBSignal


PI = S(P_(T.PI))


def same_selection(v, sel, k, mask, val, what):
    """the elements k with mask(k), in order, with the given values"""
    v.need(isinstance(sel, Masked), what + ': not a selection of the loudspeakers of the file')
    i = (lift(k),)
    v.eq(S(sel.mask(i)), mask, what + ': which')
    v.eq(S(sel.mask(i) * sel.val(i)), mask * val, what)


def near(v, x, exact, what, turn=False):
    """x is the exact value rounded to two decimals, an angle up to full turns"""
    A = lift(x).as_atom()
    v.need(A is not None and A.kind == 'app' and A.data[0] == 'round2', what + ': not a rounded value')
    y = S(A.data[1][0])
    if turn:
        for f in (np.cos, np.sin):
            v.eq(v.call(f, y * PI / 180), v.call(f, exact * PI / 180), what)
        v.true(y >= 0, what + ': at least 0 degrees')
        v.true(y < 360, what + ': less than 360 degrees')
    else:
        v.eq(y, exact, what)


class File:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def entries(v, n, gain=True, imag=True):
    """n loudspeaker entries of arbitrary content"""
    a = {k: v.array(k, (n,)) for k in ('Azimuth', 'Elevation', 'Radius')}
    if gain:
        a['Gain'] = v.array('Gain', (n,))
    if imag:
        a['IsImaginary'] = v.array('IsImaginary', (n,), sort='B')
    return a, SList(lift(n), lambda k: {q: mk(lift(v.at(x, S(P_(k)))), q == 'IsImaginary') for q, x in a.items()})


def hull_contract(v):
    """contract of the loudspeaker setup: records what it is made of (C21)"""
    made = {}

    def init(I, self, x, y, z, listener_position=None):
        made['xyz'] = (x, y, z)
        made['listener'] = listener_position

    def ambi(I, self, update_hull=False, imaginary_ls=None, characteristic_order=None, N_kernel=50):
        made['imag'], made['update'], made['N'] = imaginary_ls, update_hull, N_kernel
    v.contract(decoder.LoudspeakerSetup.__init__, init)
    v.contract(decoder.LoudspeakerSetup.ambisonics_setup, ambi)
    return made


@obligation('C18', 'load_layout')
def _(v):
    """every real loudspeaker of the file gets its position and its gain, the imaginary ones follow as imaginary, both in the order of the file"""
    n = v.int('n', 1)
    a, ls = entries(v, n)
    v.contract(open, lambda I, *q, **k: File())
    v.contract(json.load, lambda I, f: {'LoudspeakerLayout': {'Loudspeakers': ls}})
    v.contract(utils.asarray_1d, lambda I, x, **k: x)
    made = hull_contract(v)
    pos = v.array('pos', (3,))
    h = v.call(io.load_layout, 'x.json', listener_position=pos, N_kernel=v.int('Nk', 1))
    v.need(type(h) is decoder.LoudspeakerSetup and 'imag' in made and 'xyz' in made, 'a loudspeaker setup with its ambisonics hull')
    v.true(made['listener'] is pos, 'listener position')
    v.true(made['update'] is True, 'hull updated')
    v.eq(made['N'], S(P_(T.var('Nk', 'I', True))), 'kernel order')
    k = v.index('k', 0, n)
    p, q, r = v.at(a['Azimuth'], k) * PI / 180, v.at(a['Elevation'], k) * PI / 180, v.at(a['Radius'], k)
    im = v.at(a['IsImaginary'], k)
    cos, sin = (lambda x: v.call(np.cos, x)), (lambda x: v.call(np.sin, x))
    xyz = (r * cos(p) * cos(q), r * sin(p) * cos(q), r * sin(q))
    for c in range(3):
        same_selection(v, made['xyz'][c], k, 1 - im, xyz[c], f'real positions {c}')
        same_selection(v, made['imag'][:, c], k, im, xyz[c], f'imaginary positions {c}')
    same_selection(v, h.ls_gains, k, 1 - im, v.at(a['Gain'], k), 'gains')


def saved_layout(v, imag):
    """a setup of n loudspeakers whose hull has m further imaginary ones"""
    n, m = v.int('n', 1), (0 if imag == 'none' else 1 if imag == 'one' else v.int('m', 1))
    N = n + m
    h = object.__new__(decoder.LoudspeakerSetup)
    A = object.__new__(decoder.LoudspeakerSetup)
    A.x, A.y, A.z = (v.array(c, (N,)) for c in 'xyz')
    A.npoints = N
    h.npoints = n
    h.ls_gains = v.array('g', (n,))
    A.imaginary_ls_idx = None if imag == 'none' else n if imag == 'one' else v.call(np.arange, n, N)
    h.ambisonics_hull = A
    return h, A, n, m, N


for _imag in ('none', 'one', 'several'):
    @obligation('C18', f'save_layout_{_imag}')
    def _(v, imag=_imag):
        """the file has an entry for every loudspeaker of the hull in order: its direction and distance to two decimals, its mark and its gain"""
        h, A, n, m, N = saved_layout(v, imag)
        v.contract(open, lambda I, *q, **k: File())
        v.contract(round, lambda I, x, d: S(T.app('round2', lift(x), sort='R')) if d == 2 else v.fail('rounded to other decimals'))
        out = []
        v.contract(json.dump, lambda I, d, f, **k: out.append(d))
        v.call(io.save_layout, 'x.json', h)
        v.need(len(out) == 1, 'one document is written')
        ls = out[0]['LoudspeakerLayout']['Loudspeakers']
        v.need(isinstance(ls, SList), 'a list of loudspeakers')
        v.eq(ls.length(), N, 'one entry per loudspeaker')
        k = v.index('k', 0, N)
        e = ls[k]
        azi, zen, r = v.call(utils.cart2sph, v.at(A.x, k), v.at(A.y, k), v.at(A.z, k))
        near(v, e['Azimuth'], azi * 180 / PI, 'azimuth', turn=True)
        near(v, e['Elevation'], 90 - zen * 180 / PI, 'elevation')
        near(v, e['Radius'], r, 'radius')
        v.eq(e['IsImaginary'], S(T.ind_ge(lift(k - n))), 'imaginary mark')
        v.eq(e['Channel'], k + 1, 'channel')
        v.eq(e['Gain'], S(lift(v.at(h.ls_gains, k)) * T.ind_ge(lift(n - 1 - k))), 'gain')


@obligation('C18', 'layout_round_trip')
def _(v):
    """loading what was saved: the same real loudspeakers with their gains in order, then the imaginary ones, at the stored positions"""
    h, A, n, m, N = saved_layout(v, 'several')
    doc = []
    v.contract(open, lambda I, *q, **k: File())
    v.contract(round, lambda I, x, d: S(T.app('round2', lift(x), sort='R')))
    v.contract(json.dump, lambda I, d, f, **k: doc.append(d))
    v.contract(json.load, lambda I, f: doc[0])
    v.contract(utils.asarray_1d, lambda I, x, **k: x)
    made = hull_contract(v)
    v.call(io.save_layout, 'x.json', h)
    v.need(len(doc) == 1, 'one document is written')
    g = v.call(io.load_layout, 'x.json')
    v.need('xyz' in made and 'imag' in made, 'a loudspeaker setup with its ambisonics hull')
    k = v.index('k', 0, N)
    e = doc[0]['LoudspeakerLayout']['Loudspeakers'][k]
    real = S(T.ind_ge(lift(n - 1 - k)))
    cos, sin = (lambda x: v.call(np.cos, x)), (lambda x: v.call(np.sin, x))
    p, q, r = e['Azimuth'] * PI / 180, e['Elevation'] * PI / 180, e['Radius']
    xyz = (r * cos(p) * cos(q), r * sin(p) * cos(q), r * sin(q))
    for c in range(3):
        same_selection(v, made['xyz'][c], k, real, xyz[c], f'real positions {c}')
        same_selection(v, made['imag'][:, c], k, 1 - real, xyz[c], f'imaginary positions {c}')
    same_selection(v, g.ls_gains, k, real, S(lift(v.at(h.ls_gains, k)) * T.ind_ge(lift(n - 1 - k))), 'gains')
    v.true(made['listener'] is None, 'no further shift')


@obligation('C18', 'no_hull')
def _(v):
    """a layout without ambisonics hull is rejected and nothing is written"""
    h = object.__new__(decoder.LoudspeakerSetup)
    h.ambisonics_hull = []
    doc = []
    v.contract(open, lambda I, *q, **k: doc.append(1))
    v.contract(json.dump, lambda I, d, f, **k: doc.append(d))
    v.raises(ValueError, io.save_layout, 'x.json', h)
    v.true(not doc, 'nothing written')


# ------------------------------------------------------------------ audio
FILES = 'contract of soundfile: read returns the samples, channels and rate that write was given, to the resolution of the subtype'


def disk(v):
    """contract of the files: what was written is read"""
    files = {}

    def write(I, f, data, rate, subtype=None, **k):
        files[f] = (data, rate, subtype)
    v.contract(sf.write, write)
    v.contract(sf.read, lambda I, f, **k: files[f][:2])
    return files


def multi(v, cls=MultiSignal, C=None):
    """signal of any number of channels satisfying the class invariant of C17"""
    n, fs = v.int('n', 2), v.int('fs', 1)
    C = C or v.int('C', 2)
    x = v.array('x', (C, n))
    m = object.__new__(cls)
    m._fs = fs

    def channel(k):
        ch = object.__new__(MonoSignal)
        ch._signal, ch._fs = x[S(P_(k))], fs
        return ch
    m.channels = SList(lift(C), channel) if not isinstance(C, int) else [channel(k) for k in range(C)]
    m.channel_count = C
    return m, x, C, n, fs


@obligation('C18', 'save_multi', assumptions=[FILES])
def _(v):
    """saving a multichannel signal of any number of channels writes all samples, one column per channel, with its rate and subtype"""
    for cls, C in ((MultiSignal, None), (AmbiBSignal, 4)):
        for form in range(3):
            m, x, C_, n, fs = multi(v, cls, C)
            files = disk(v)
            if form == 0:
                v.call(io.save_audio, m, 'a.wav', subtype='PCM_24')
            elif form == 1:
                v.call(io.save_audio, m, 'a.wav', fs, subtype='PCM_24')
            else:
                v.call(cls.save, m, 'a.wav', subtype='PCM_24')
            written(v, files, 'a.wav', fs, 'PCM_24', (n, C_), lambda t, c: v.at(x, c, t))
    v.frame()


def written(v, files, f, fs, subtype, shape, val):
    v.need(list(files) == [f], 'one file is written')
    data, rate, sub = files[f]
    v.eq(rate, fs, 'rate in the file')
    v.true(sub == subtype, 'subtype')
    v.same_shape(data, shape, 'samples and channels')
    t = v.index('t', 0, shape[0])
    if len(shape) == 1:
        v.eq(v.at(data, t), val(t), 'samples')
    else:
        for c in range(shape[1]) if isinstance(shape[1], int) else [v.index('c', 0, shape[1])]:
            v.eq(v.at(data, t, c), val(t, c), 'samples')


@obligation('C18', 'save_mono', assumptions=[FILES])
def _(v):
    """saving a mono signal or an array writes its samples and the rate"""
    n, fs = v.int('n', 2), v.int('fs', 1)
    x = v.array('x', (n,))
    for form in range(4):
        m = v.call(MonoSignal, x, fs)
        files = disk(v)
        if form == 0:
            v.call(io.save_audio, m, 'a.wav')
        elif form == 1:
            v.call(io.save_audio, m, 'a.wav', fs)
        elif form == 2:
            v.call(MonoSignal.save, m, 'a.wav')
        else:
            v.call(io.save_audio, x, 'a.wav', fs)
        written(v, files, 'a.wav', fs, 'FLOAT', (n,), lambda t: v.at(x, t))
    v.frame()


@obligation('C18', 'save_mismatch', assumptions=[FILES])
def _(v):
    """a rate contradicting the signal's own, or an array without rate, is rejected and nothing is written"""
    n, fs, d = v.int('n', 2), v.int('fs', 1), v.int('d', 1)
    x = v.array('x', (n,))
    files = disk(v)
    m = v.call(MonoSignal, x, fs)
    for other in (fs + d, fs - d):
        v.raises(AssertionError, io.save_audio, m, 'a.wav', other)
        for cls, C in ((MultiSignal, None), (AmbiBSignal, 4)):
            v.raises(AssertionError, io.save_audio, multi(v, cls, C)[0], 'a.wav', other)
    v.raises(ValueError, io.save_audio, x, 'a.wav')
    v.true(not files, 'nothing is written')


def record_multi(v):
    """contract of the constructor (C17): records the channels and the rate"""
    made = []

    def init(I, self, signals, fs=None):
        if isinstance(signals, Arr):
            raise AssertionError
        if fs is None:
            raise ValueError
        made.append((signals, fs))
    v.contract(MultiSignal.__init__, init)
    return made


def channels_are(v, made, C, n, fs, val, what):
    v.need(len(made) == 1, 'one signal is made')
    signals, rate = made[0]
    v.eq(rate, fs, what + ': rate')
    v.eq(signals.length() if isinstance(signals, SList) else len(signals), C, what + ': channels')
    t = v.index('t', 0, n)
    for c in range(C) if isinstance(C, int) else [v.index('c', 0, C)]:
        ch = signals[c]
        v.same_shape(ch, (n,), what + ': length')
        v.eq(v.at(ch, t), val(c, t), what + ': samples')


@obligation('C18', 'load_one', assumptions=[FILES])
def _(v):
    """one file: a mono signal of its samples or a signal of all its channels in order, at its rate; another rate is rejected"""
    n, fs, C, d = v.int('n', 2), v.int('fs', 1), v.int('C', 2), v.int('d', 1)
    x, y = v.array('x', (n,)), v.array('y', (n, C))
    v.contract(sf.read, lambda I, f, **k: (x if f == 'mono.wav' else y, fs))
    made = record_multi(v)
    for arg in ('mono.wav', ['mono.wav'], ('mono.wav',)):
        for k in ((), (fs,)):
            m = v.call(io.load_audio, arg, *k)
            v.true(type(m) is MonoSignal, 'a mono signal')
            v.eq(v.get(m, 'fs'), fs, 'rate')
            v.eq(v.get(m, 'signal'), x, 'samples')
    for k in ((), (fs,)):
        m = v.call(MonoSignal.from_file, 'mono.wav', *k)
        v.true(type(m) is MonoSignal, 'a mono signal')
        v.eq(v.get(m, 'fs'), fs, 'rate')
        v.eq(v.get(m, 'signal'), x, 'samples')
        for load, cls in ((io.load_audio, MultiSignal), (MultiSignal.from_file, MultiSignal)):
            del made[:]
            m = v.call(load, 'multi.wav', *k)
            v.true(type(m) is cls, 'a multichannel signal')
            channels_are(v, made, C, n, fs, lambda c, t: v.at(y, t, c), 'multichannel file')
    for other in (fs + d, fs - d):
        for load, f in ((io.load_audio, 'mono.wav'), (io.load_audio, 'multi.wav'), (MonoSignal.from_file, 'mono.wav'),
                        (MultiSignal.from_file, 'multi.wav')):
            v.raises(ValueError, load, f, other)
    v.raises(ValueError, MonoSignal.from_file, 'multi.wav')
    v.raises(ValueError, MultiSignal.from_file, 'mono.wav')
    v.frame()


@obligation('C18', 'load_several', assumptions=[FILES])
def _(v):
    """any number of mono files of one rate: one channel per file in the order given"""
    n, fs, K = v.int('n', 2), v.int('fs', 1), v.int('K', 2)
    x = v.array('x', (K, n))
    v.contract(os.path.expanduser, lambda I, f: f)
    v.contract(sf.read, lambda I, f, **k: (x[f], fs))
    for k in ((), (fs,)):
        made = record_multi(v)
        m = v.call(io.load_audio, SList(lift(K), lambda j: S(P_(j))), *k)
        v.true(type(m) is MultiSignal, 'a multichannel signal')
        channels_are(v, made, K, n, fs, lambda c, t: v.at(x, c, t), 'several files')


@obligation('C18', 'load_rates', assumptions=[FILES])
def _(v):
    """files of different rates are rejected, at whichever position"""
    n, K = v.int('n', 2), v.int('K', 2)
    x, fs = v.array('x', (K, n)), v.array('fs', (K,), sort='I')
    j = v.index('j', 0, K)
    v.assume(v.at(fs, j) != v.at(fs, 0))
    v.contract(os.path.expanduser, lambda I, f: f)
    v.contract(sf.read, lambda I, f, **k: (x[f], v.at(fs, f)))
    record_multi(v)
    v.raises(AssertionError, io.load_audio, SList(lift(K), lambda j: S(P_(j))), at=(j,))


@obligation('C18', 'load_layout_defaults')
def _(v):
    """entries without gain get unit gain, entries without mark are real"""
    n = v.int('n', 1)
    a, ls = entries(v, n, gain=False, imag=False)
    v.contract(open, lambda I, *q, **k: File())
    v.contract(json.load, lambda I, f: {'LoudspeakerLayout': {'Loudspeakers': ls}})
    v.contract(utils.asarray_1d, lambda I, x, **k: x)
    made = hull_contract(v)
    h = v.call(io.load_layout, 'x.json')
    v.need('xyz' in made and 'imag' in made, 'a loudspeaker setup with its ambisonics hull')
    k = v.index('k', 0, n)
    p, q, r = v.at(a['Azimuth'], k) * PI / 180, v.at(a['Elevation'], k) * PI / 180, v.at(a['Radius'], k)
    cos, sin = (lambda x: v.call(np.cos, x)), (lambda x: v.call(np.sin, x))
    xyz = (r * cos(p) * cos(q), r * sin(p) * cos(q), r * sin(q))
    for c in range(3):
        same_selection(v, made['xyz'][c], k, S(ONE), xyz[c], f'real positions {c}')
        same_selection(v, made['imag'][:, c], k, S(ZERO), xyz[c], f'imaginary positions {c}')
    same_selection(v, h.ls_gains, k, S(ONE), S(ONE), 'unit gains')
