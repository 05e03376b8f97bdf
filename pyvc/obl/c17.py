"""C17: signal containers.  Class invariant: the channels are the channels given, in order, of the signal's own rate, and the
count stored is their number.  MultiSignal has any number of channels.  Every operation is specified on an arbitrary signal satisfying it, so sequences follow by induction."""
import copy
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, SList, SObjs, view_of, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import sig, sph, utils
from spaudiopy.sig import MonoSignal, MultiSignal, AmbiBSignal



class Chans:
    """the signals expected in the channels: a list, or any number of them"""
    def __init__(self, n, f=None):
        self.items = n if isinstance(n, list) else None
        self.n, self.f = (len(n), n.__getitem__) if f is None else (n, f)

    def map(self, g):
        return Chans([g(x, c) for c, x in enumerate(self.items)]) if self.items is not None else Chans(self.n, lambda k: g(self.f(k), k))

    def put(self, c, x):
        """x in channel c"""
        if self.items is not None:
            return Chans(self.items[:c] + [x] + self.items[c + 1:])
        d = lambda k: S(T.ind_eq(lift(k) - lift(c)))

        def f(k):
            rx, ro = x.reader(), self.f(k).reader()
            e = lift(d(k))
            return Arr(x.shape_, lambda i: e * rx(i) + (ONE - e) * ro(i), x.sort)
        return Chans(self.n, f)


def given(v, C, n, tag='s'):
    """C signals of n samples: separate ones for a fixed number, the rows of a matrix for a symbolic one"""
    if isinstance(C, int):
        return Chans([v.array(f'{tag}{c}', (n,)) for c in range(C)])
    x = v.array(tag, (C, n))
    return Chans(C, lambda k: x[k if isinstance(k, (int, S)) else S(P_(k))])


def as_list(ch):
    return list(ch.items) if ch.items is not None else SList(lift(ch.n), lambda k: ch.f(S(P_(k))))


def signals(v, C, n, tag='s'):
    return as_list(given(v, C, n, tag))


def build(v, C, cls=MultiSignal, tag='s', nmin=2):
    n, fs = v.int('n', nmin), v.int('fs', 1)
    chs = given(v, C, n, tag)
    return v.call(cls, as_list(chs), fs=fs), chs, n, fs


def invariant(v, m, chs, fs, what=''):
    """the signal has exactly these channels and this rate"""
    C = chs.n
    channels = v.get(m, 'channels')
    v.eq(v.get(m, 'num_channels'), C, what + ': number of channels')
    v.eq(v.get(m, 'channel_count'), C, what + ': channel count')
    v.eq(v.call(len, channels), C, what + ': channels')
    v.eq(v.get(m, 'fs'), fs, what + ': rate')
    ks = list(range(len(channels))) if isinstance(channels, list) else [v.index('c', 0, C)]
    for c in ks:
        ch = channels[c]
        x = chs.f(c)
        v.true(type(ch) is MonoSignal, what + ': channel object')
        v.eq(v.get(ch, 'signal'), x, what + f': channel {c}')
        v.eq(v.get(ch, 'fs'), fs, what + f': rate of channel {c}')
        v.eq(v.call(len, ch), S(P_(x.shape_[0])), what + ': length of the channel')
        v.true(same_object(v.call(type(m).__getitem__, m, c), ch), what + ': indexing')
    N = S(P_(chs.f(ks[0]).shape_[0]))
    v.eq(v.call(len, m), N, what + ': length')
    for a in (v.call(type(m).get_signals, m), v.get(m, 'signals')):
        v.same_shape(a, (C, N), what + ': signals')
        t = v.index('t', 0, N)
        for c in ks:
            v.eq(v.at(a, c, t), v.at(chs.f(c), t), what + ': signals')
    if isinstance(m, AmbiBSignal):
        for c, nm in enumerate('WXYZ'):
            v.eq(v.get(m, nm), chs.f(c), what + f': {nm}')
    if isinstance(channels, list):
        for i in ks:
            for j in range(i):
                v.true(channels[i] is not channels[j], what + ': separate channels')
    else:
        v.need(isinstance(channels, SObjs), what + ': separate channels')


def same_object(a, b):
    p, q = view_of(a), view_of(b)
    return a is b if p is None else q is not None and p[0] is q[0] and (p[1] - q[1]).is_zero()


def kinds(v):
    """a signal of any number of channels, one with a fixed number, and a B-format signal"""
    return [(MultiSignal, 2), (AmbiBSignal, 4), (MultiSignal, v.int('C', 1))]


@obligation('C17', 'constructed')
def _(v):
    """constructing establishes the invariant; without a rate, or a B-format signal of other than four channels, it is rejected"""
    for cls, C in kinds(v):
        m, chs, n, fs = build(v, C, cls)
        invariant(v, m, chs, fs, 'constructed')
        v.raises(ValueError, cls, as_list(chs))
    for C in (1, 2, 3, v.int('more', 5)):
        v.raises(AssertionError, AmbiBSignal, signals(v, C, v.int('n', 1)), fs=48000)
    v.raises(AssertionError, MultiSignal, v.array('a', (v.int('C', 1), v.int('n', 1))), fs=48000)
    v.frame()


def trim_bounds(v, n, fs):
    """seconds inside the signal, and the sample range they select"""
    a, b = v.real('start', nonneg=True), v.real('stop', nonneg=True)
    v.assume(a < b)
    v.assume(b * fs <= n)
    k0, k1 = v.call(int, a * fs), v.call(int, b * fs)
    v.assume(k1 > k0 + 1)          # two samples left: a single remaining sample is a sample as well, see trim_short
    return a, b, k0, k1


def part(x, k0, k1):
    k0, k1 = lift(k0), lift(k1)
    r = x.reader()
    return Arr((k1 - k0,), lambda i: r((i[0] + k0,)), x.sort)


@obligation('C17', 'trim')
def _(v):
    """trimming keeps exactly the samples int(start fs) <= k < int(stop fs) of every channel, with a stop or a duration"""
    for cls, C in kinds(v):
        for dur in (False, True):
            m, chs, n, fs = build(v, C, cls)
            a, b, k0, k1 = trim_bounds(v, n, fs)
            if dur:
                v.call(cls.trim, m, a, 0, dur=b - a)
            else:
                v.call(cls.trim, m, a, b)
            invariant(v, m, chs.map(lambda x, c: part(x, k0, k1)), fs, 'trimmed')
    v.frame()


@obligation('C17', 'trim_mono')
def _(v):
    """the single-channel operation; start behind the end is rejected and changes nothing"""
    n, fs = v.int('n', 2), v.int('fs', 1)
    x = v.array('x', (n,))
    m = v.call(MonoSignal, x, fs)
    a, b, k0, k1 = trim_bounds(v, n, fs)
    v.raises(AssertionError, MonoSignal.trim, m, n / fs + v.real('late', nonneg=True), b)
    v.eq(v.get(m, 'signal'), x, 'after a rejected trim')
    v.call(MonoSignal.trim, m, a, b)
    v.eq(v.get(m, 'signal'), part(x, k0, k1), 'kept samples')
    v.eq(v.call(len, m), k1 - k0, 'length')
    v.eq(v.get(m, 'fs'), fs, 'rate')
    v.frame()


@obligation('C17', 'trim_audio')
def _(v):
    """the trimmed copy has the samples asked for, the original keeps all"""
    for cls, C in kinds(v):
        m, chs, n, fs = build(v, C, cls)
        a, b, k0, k1 = trim_bounds(v, n, fs)
        r = v.call(sig.trim_audio, m, a, b)
        v.true(type(r) is cls, 'kind of signal')
        invariant(v, r, chs.map(lambda x, c: part(x, k0, k1)), fs, 'trimmed copy')
        invariant(v, m, chs, fs, 'original')
    v.frame()


def convolved(v, x, h):
    n, k = S(P_(x.shape_[0])), S(P_(h.shape_[0]))
    d = lambda a: S(T.ind_eq(lift(a)))
    return Arr((lift(n + k - 1),), lambda i: lift(v.sum(0, n, lambda a: v.sum(0, k, lambda b: v.at(x, a) * v.at(h, b) * d(a + b - S(i[0]))))), 'R')


@obligation('C17', 'conv')
def _(v):
    """filtering convolves channel c with response c as the single-channel operation does, and returns the signal"""
    for cls, C in kinds(v):
        m, chs, n, fs = build(v, C, cls)
        k = v.int('k', 1)
        bool(k == 1)                    # responses of one sample on a path of their own
        hs = given(v, C, k, 'h')
        r = v.call(cls.conv, m, as_list(hs))
        v.true(r is m, 'returns the signal')
        invariant(v, m, chs.map(lambda x, c: convolved(v, x, hs.f(c))), fs, 'filtered')
    x, h = v.array('x', (n,)), v.array('h', (v.int('k', 1),))
    s = v.call(MonoSignal, x, fs)
    r = v.call(MonoSignal.conv, s, h)
    v.true(r is s, 'returns the signal')
    v.eq(v.get(s, 'signal'), convolved(v, x, h), 'single channel')
    v.frame()


def resampled(v, x, fs, f2):
    import resampy
    return v.call(resampy.resample, x, fs, f2)


@obligation('C17', 'resample', assumptions=['resampy.resample acts on every vector along the axis on its own and returns '
                                                      'floor(n f2 / f1) samples'])
def _(v):
    """resampling resamples every channel as the single-channel operation does and adopts the new rate; the same rate changes nothing"""
    for cls, C in kinds(v):
        m, chs, n, fs = build(v, C, cls)
        v.call(cls.resample, m, fs)
        invariant(v, m, chs, fs, 'same rate')
        f2 = v.int('f2', 1)
        v.assume(f2 > fs)
        v.call(cls.resample, m, f2)
        invariant(v, m, chs.map(lambda x, c: resampled(v, x, fs, f2)), f2, 'resampled')
    x = v.array('x', (n,))
    s = v.call(MonoSignal, x, fs)
    v.call(MonoSignal.resample, s, f2)
    v.eq(v.get(s, 'signal'), resampled(v, x, fs, f2), 'single channel')
    v.eq(v.get(s, 'fs'), f2, 'rate')
    v.frame()


@obligation('C17', 'replace')
def _(v):
    """replacing one channel's signal changes that channel only; the named channels of a B-format signal are its channels"""
    for cls, C in kinds(v):
        for c in range(C) if isinstance(C, int) else [v.index('c', 0, C)]:
            m, chs, n, fs = build(v, C, cls)
            new = v.array('new', (n,))
            v.set(m.channels[c], 'signal', new)
            invariant(v, m, chs.put(c, new), fs, 'replaced')
    for c, nm in enumerate('WXYZ'):
        m, chs, n, fs = build(v, 4, AmbiBSignal)
        new = v.array('new', (n,))
        v.set(m, nm, new)
        invariant(v, m, chs.put(c, new), fs, f'{nm} replaced')
    v.frame()


@obligation('C17', 'apply')
def _(v):
    """applying a function does to every channel what it does to a single-channel signal"""
    for cls, C in kinds(v):
        m, chs, n, fs = build(v, C, cls)
        x = v.array('x', (v.int('k', 2),))
        v.call(cls.apply, m, np.square, x)

        def alone(y, c):
            s = v.call(MonoSignal, y, fs)
            v.call(MonoSignal.apply, s, np.square, x)
            return v.get(s, 'signal')
        invariant(v, m, chs.map(alone), fs, 'applied')
    v.frame()


@obligation('C17', 'copy')
def _(v):
    """a copy is an equal signal of the same kind; changing one leaves the other"""
    for cls, C in kinds(v):
        m, chs, n, fs = build(v, C, cls)
        c = v.call(cls.copy, m)
        v.true(type(c) is cls, 'kind of signal')
        invariant(v, c, chs, fs, 'copy')
        a, b, k0, k1 = trim_bounds(v, n, fs)
        v.call(cls.trim, c, a, b)
        invariant(v, m, chs, fs, 'original after trimming the copy')
        k = v.int('k', 1)
        bool(k == 1)
        v.call(cls.conv, m, signals(v, C, k, 'h'))
        invariant(v, c, chs.map(lambda x, c: part(x, k0, k1)), fs, 'copy after filtering the original')
        d = v.call(cls.copy, c)
        v.set(c.channels[0], 'signal', v.array('new', (n,)))
        invariant(v, d, chs.map(lambda x, c: part(x, k0, k1)), fs, 'copy of a copy')
    v.frame()


@obligation('C17', 'sh_to_b')
def _(v):
    """converting a harmonics signal gives a B-format signal of the converted channels, leaving the signal as it is"""
    m, chs, n, fs = build(v, 4)
    b = v.call(AmbiBSignal.sh_to_b, m)
    v.true(type(b) is AmbiBSignal, 'kind of signal')
    x = v.call(sph.sh_to_b, v.call(np.asarray, as_list(chs)))
    r = x.reader()
    invariant(v, b, Chans([Arr((lift(n),), lambda i, c=c: r((P_(c), i[0])), 'R') for c in range(4)]), fs, 'converted')
    invariant(v, m, chs, fs, 'original')
    v.frame()
