"""C25: nearest-direction lookup."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import sig, decoder, utils

LOC = 'scipy.spatial.ConvexHull is outside the verifier: the layout is any object with points, npoints, distances and exponent'


def grid(v):
    G, n = v.int('G', 1), v.int('n', 1)
    L, R = v.array('L', (G, n)), v.array('R', (G, n))
    azi, zen = v.array('azi', (G,)), v.array('zen', (G,))
    return G, n, L, R, azi, zen, v.call(sig.HRIRs, L, R, azi, zen, 48000)


def cosine(v, a, z, b, y):
    """cosine of the angle between two directions"""
    c, s = lambda x: v.call(np.cos, x), lambda x: v.call(np.sin, x)
    return s(z) * s(y) * c(a - b) + c(z) * c(y)


def entry(v, x, q, Q):
    """result of query q; one query gives a scalar"""
    if isinstance(x, Arr) and x.ndim:
        v.same_shape(x, (Q,), 'one result per query')
        return v.at(x, q)
    v.true(Q == 1, 'one result for one query')
    return x


@obligation('C25', 'nearest_index')
def _(v):
    """no grid direction is nearer than the one found, for any query; an index of the grid"""
    G, n, L, R, azi, zen, H = grid(v)
    Q = v.int('Q', 1)
    qa, qz = v.array('qa', (Q,)), v.array('qz', (Q,))
    idx = v.call(sig.HRIRs.nearest_idx, H, qa, qz)
    q, j = 0 if v.holds(Q == 1) else v.index('q', 0, Q), 0 if v.holds(G == 1) else v.index('j', 0, G)
    k = entry(v, idx, q, Q)
    v.extremal(k, j)
    v.true(k >= 0, 'index')
    v.true(k <= G - 1, 'index')
    cos = lambda i: cosine(v, v.at(qa, q), v.at(qz, q), v.at(azi, i), v.at(zen, i))
    v.true(cos(k) >= cos(j), 'no other entry is nearer')
    v.frame()


@obligation('C25', 'single_queries')
def _(v):
    """many queries give what one query at a time gives, in order"""
    G, n, L, R, azi, zen, H = grid(v)
    Q = v.int('Q', 1)
    qa, qz = v.array('qa', (Q,)), v.array('qz', (Q,))
    q = v.index('q', 0, Q)
    k = entry(v, v.call(sig.HRIRs.nearest_idx, H, qa, qz), q, Q)
    one = v.call(sig.HRIRs.nearest_idx, H, v.at(qa, q), v.at(qz, q))
    v.eq(entry(v, one, 0, 1), k, 'one query')
    l1, r1 = v.call(sig.HRIRs.nearest_hrirs, H, v.at(qa, q), v.at(qz, q))
    l, r = v.call(sig.HRIRs.nearest_hrirs, H, qa, qz)
    t = v.index('t', 0, n)
    pick = lambda x: v.at(x, q, t) if x.ndim == 2 else v.at(x, t)
    for x, y, Z in ((l, l1, L), (r, r1, R)):
        v.same_shape(x, (Q, n) if x.ndim == 2 else (n,), 'responses')
        v.eq(pick(x), v.at(Z, k, t), 'stored response of the entry found')
        v.eq(v.at(y, 0, t) if y.ndim == 2 else v.at(y, t), v.at(Z, k, t), 'stored response of the entry found')
    v.frame()


@obligation('C25', 'entries')
def _(v):
    """indexing gives the pair of one entry; the stored sizes agree"""
    G, n, L, R, azi, zen, H = grid(v)
    i, t = v.index('i', 0, G), v.index('t', 0, n)
    l, r = v.call(sig.HRIRs.__getitem__, H, i)
    v.eq(v.at(l, t), v.at(L, i, t), 'left')
    v.eq(v.at(r, t), v.at(R, i, t), 'right')
    consistent(v, H, G, n, L, R, azi, zen)
    v.frame()


def consistent(v, H, G, n, L, R, azi, zen):
    v.eq(v.call(len, H), n, 'length')
    v.eq(H.num_samples, n, 'number of samples')
    v.eq(H.num_grid_points, G, 'number of directions')
    v.eq(H.fs, 48000, 'sampling rate')
    for x, y, w in ((H.left, L, 'left'), (H.right, R, 'right'), (H.azi, azi, 'azimuths'), (H.zen, zen, 'zeniths')):
        v.eq(x, y, w)


@obligation('C25', 'update')
def _(v):
    """replacing the responses keeps directions and adapts the length; lookups then give the new responses"""
    G, n, L, R, azi, zen, H = grid(v)
    m = v.int('m', 1)
    L2, R2 = v.array('L2', (G, m)), v.array('R2', (G, m))
    v.call(sig.HRIRs.update_hrirs, H, L2, R2)
    consistent(v, H, G, m, L2, R2, azi, zen)
    a, z = v.reals('a z')
    k = v.call(sig.HRIRs.nearest_idx, H, a, z)
    l, r = v.call(sig.HRIRs.nearest_hrirs, H, a, z)
    t = v.index('t', 0, m)
    row = lambda x: v.at(x, 0, t) if x.ndim == 2 else v.at(x, t)
    k = entry(v, k, 0, 1)
    v.eq(row(l), v.at(L2, k, t), 'left')
    v.eq(row(r), v.at(R2, k, t), 'right')
    v.frame()


@obligation('C25', 'equalisation')
def _(v):
    """equalising keeps directions and count, and the length stored is that of the responses"""
    for mode in ('full', 'same'):
        G, n, L, R, azi, zen, H = grid(v)
        e = v.array('eq', (v.int('k', 1),))
        v.call(sig.HRIRs.apply_ctf_eq, H, e, mode)
        v.eq(v.call(len, H), H.num_samples, 'length')
        v.same_shape(H.left, (G, H.num_samples), 'left')
        v.same_shape(H.right, (G, H.num_samples), 'right')
        v.eq(H.azi, azi, 'azimuths')
        v.eq(H.zen, zen, 'zeniths')
        v.eq(H.num_grid_points, G, 'count')
    v.frame()


@obligation('C25', 'rejection')
def _(v):
    """responses or directions that do not match are rejected, and a rejected update changes nothing"""
    G, n, L, R, azi, zen, H = grid(v)
    d = v.int('d', 1)
    m = v.int('m', 1)
    A = lambda name, k: v.array(name, (k, m))
    bad = [(G + d, G, G, G), (G, G + d, G, G), (G + d, G + d, G, G), (G, G, G + d, G), (G, G, G, G + d), (G, G, G + d, G + d)]
    for i, (a, b, c, e) in enumerate(bad):
        v.raises(AssertionError, sig.HRIRs, A(f'l{i}', a), A(f'r{i}', b), v.array(f'a{i}', (c,)), v.array(f'z{i}', (e,)), 48000)
    st = v.state(H)
    for i, (a, b, _, _) in enumerate(bad[:3]):
        v.raises(AssertionError, sig.HRIRs.update_hrirs, H, A(f'ul{i}', a), A(f'ur{i}', b))
        v.same_state(st)
    v.frame()


@obligation('C25', 'nearest_loudspeaker', assumptions=[LOC])
def _(v):
    """every source is assigned to one loudspeaker, the one of smallest angle, with its distance gain"""
    Q, L = v.int('Q', 1), v.int('L', 1)
    h = object.__new__(decoder.LoudspeakerSetup)
    h.points, h.npoints, h.a = v.array('p', (L, 3)), L, v.real('ex', nonneg=True)
    h.d = v.array('d', (L,), nn=True)
    src = v.array('src', (Q, 3))
    g = v.call(decoder.nearest_loudspeaker, src, h)
    v.same_shape(g, (Q, L), 'one gain per loudspeaker')
    q, j, l = v.index('q', 0, Q), v.index('j', 0, L), v.index('l', 0, L)
    x = v.at(g, q, l)
    ks = v.extremal(x, j)
    if len(ks) != 1:
        v.structure('one search')
    k = ks[0]
    cos = lambda i: sum(v.at(src, q, c) * v.at(h.points, i, c) for c in range(3)) / v.at(h.d, i)
    v.true(cos(k) >= cos(j), 'no loudspeaker is nearer')
    v.eq(x, S(T.ind_eq(lift(l) - lift(k))) * v.at(h.d, k) ** h.a, 'gain')
    one = v.call(decoder.nearest_loudspeaker, src[q, :], h)
    v.same_shape(one, (1, L), 'one source')
    v.eq(v.at(one, 0, l), x, 'one source at a time')
    v.frame()
