"""C11: amplitude panning."""
import numpy as np
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import sym as Y
from .. import core as C
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import decoder

HULL = 'scipy.spatial.ConvexHull is outside the verifier: the layout is any object with points, distances, exponent and valid triangles'
LIN = 'numpy.linalg.lstsq inverts the 3 x 3 bases of valid triangles (their loudspeakers have linearly independent directions)'
TOL = S(P_(1)) / 100000
R3 = range(3)


def layout(v, prefix='', a=1):
    L = v.int(prefix + 'L', 3)
    M = v.int(prefix + 'M', 1)
    h = object.__new__(decoder.LoudspeakerSetup)
    h.points = v.array(prefix + 'p', (L, 3))
    h.npoints = L
    h.d = v.array(prefix + 'd', (L,), nn=True)
    h.a = a
    h.valid_simplices = v.array(prefix + 'tri', (M, 3), 'I', nn=True)
    h.ambisonics_hull = []
    h.kernel_hull = []
    return h, L, M


def small(v):
    v.I.opaque_inverse = v.I.name_products = True
    v.ctx.timeout = 300


class Panned:
    """one source s of a panning call, and the triangle it hits"""

    def __init__(self, v, hull, L, M, Q, src, g, tri=None, face=None, norm=2):
        self.v = v
        tri = hull.valid_simplices if tri is None else tri
        self.s, self.l = s, l = v.index('s', 0, Q), v.index('l', 0, L)
        self.g = g
        v.same_shape(g, (Q, L), 'one row per source, one column per loudspeaker')
        fs = v.firsts(v.at(g, s, l))
        if len(fs) != 1:
            v.structure('search for the triangle')
        self.f = f = fs[0]
        self.tri = [v.at(tri, f, c) for c in R3]

    def hit(self, pts, src):
        """the search succeeds: vertices are different loudspeakers"""
        v, f = self.v, self.f
        v.found(f)
        for c in R3:
            v.assume(self.tri[c] >= 0)
            v.assume(self.tri[c] <= self.L - 1)
        for c in R3:
            for e in range(c):
                v.nonzero(self.tri[c] - self.tri[e])


def prepared(v, norm=2, a=1, **kw):
    small(v)
    h, L, M = layout(v, a=a)
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))
    g = v.call(decoder.vbap, src, h, **kw) if norm is None else v.call(decoder.vbap, src, h, norm=norm, **kw)
    p = Panned(v, h, L, M, Q, src, g)
    p.h, p.L, p.M, p.Q, p.src = h, L, M, Q, src
    p.inside = v.holds(p.f <= M - 1)
    if p.inside:
        p.hit(h.points, src)
    return p


def quotient(v, p, c):
    """gain of vertex c without its distance compensation"""
    l = p.tri[c]
    d = v.at(p.h.d, l)
    w = v.at(p.g, p.s, l)
    if p.h.a == 0:
        return w, S(ONE)
    v.nonzero(d)
    return w, d ** p.h.a


def one_triangle(v, norm, a):
    p = prepared(v, norm, a)
    if not p.inside:
        v.eq(v.at(p.g, p.s, p.l), 0, 'no triangle, no gain')
        return
    for c in R3:
        w, d = quotient(v, p, c)
        v.true(w >= -TOL * d, 'non-negative up to the tolerance')
    for c in R3:
        v.nonzero(p.l - p.tri[c])
    v.eq(v.at(p.g, p.s, p.l), 0, 'other loudspeakers')
    v.frame()


for _n, _a in ((2, 1), (None, 1), (1, 1), (2, 0), (1, 2)):
    obligation('C11', f'one_triangle_norm{_n or "default"}_a{_a}', assumptions=[HULL])(
        (lambda n, a: lambda v: one_triangle(v, n, a))(_n, _a))


def unit_norm(v, norm, a):
    """the three gains without compensation have unit norm"""
    p = prepared(v, norm, a)
    if not p.inside:
        raise C.Infeasible()
    t = S(ZERO)
    for c in R3:
        w, d = quotient(v, p, c)
        q = S(C.CTX.simp(lift(w / d), solve=True))
        t = t + (q * q if norm in (None, 2) else v.call(abs, q) ** norm)
    if norm == 3:       # the same, multiplied by the third power of the length of the projection (non-zero)
        V, X, pr, *_ = instances(v, p)
        n3 = sum((v.call(abs, v.at(pr, c)) ** 3 for c in R3), S(ZERO))
        t, one = t * n3, n3
    else:
        one = 1
    v.eq(t, one, 'norm')


for _n, _a in ((2, 1), (None, 1), (1, 1), (3, 1), (2, 0)):
    obligation('C11', f'unit_norm{_n or "default"}_a{_a}', assumptions=[HULL, 'the source is not at the origin'])(
        (lambda n, a: lambda v: unit_norm(v, n, a))(_n, _a))


def instances(v, p):
    """base, inverse and projection of the triangle hit"""
    ls, dt = v.calls('lstsq'), v.calls('dot')
    if len(ls) != 1 or len(dt) != 1:
        v.structure('one inverse and one projection')
    at = [(p.M, p.f), (p.Q, p.s)]
    (V, E), res = v.instance(ls[0], at)
    (B, x), pr = v.instance(dt[0], at)
    X = res[0]
    for i in R3:
        for j in R3:
            v.eq(v.at(E, i, j), int(i == j), 'right hand side')
            v.eq(v.at(V, i, j), v.at(p.h.points, p.tri[i], j), 'base')
    # numpy.dot: definition of the projection
    defn = [v.at(pr, i) - sum((v.at(B, i, j) * v.at(x, j) for j in R3), S(ZERO)) for i in R3]
    # numpy.linalg.lstsq of a regular square matrix: both products are the identity
    left = [[sum((v.at(X, i, k) * v.at(V, k, j) for k in R3), S(ZERO)) - int(i == j) for j in R3] for i in R3]
    right = [[sum((v.at(V, i, k) * v.at(X, k, j) for k in R3), S(ZERO)) - int(i == j) for j in R3] for i in R3]
    return V, X, pr, defn, left, right


def length(v, pr, norm):
    if norm in (None, 2):
        return v.call(np.sqrt, sum((v.at(pr, c) * v.at(pr, c) for c in R3), S(ZERO)))
    return sum((v.call(abs, v.at(pr, c)) ** norm for c in R3), S(ZERO)) ** (S(ONE) / norm if norm > 1 else 1)


def complete(v, norm):
    """a source inside a valid triangle (up to rounding) gets gains: the search ends there at the latest"""
    p = prepared(v, norm)
    dt = v.calls('dot')
    if len(dt) != 1:
        v.structure('one projection')
    m = v.index('m', 0, p.M)
    _, pr = v.instance(dt[0], [(p.M, m), (p.Q, p.s)])
    N = length(v, pr, norm)
    v.assume(N > 0)
    for c in R3:
        v.assume(v.at(pr, c) >= -TOL / 100 * N)
    v.not_before(p.f, m)
    v.true(p.f <= m, 'no earlier triangle, this one')


for _n in (2, None, 1):
    obligation('C11', f'complete_norm{_n or "default"}', assumptions=[HULL])((lambda n: lambda v: complete(v, n))(_n))


def direction(v, norm, a):
    """sum of gain / compensation times position is the source times a positive number"""
    p = prepared(v, norm, a)
    if not p.inside:
        raise C.Infeasible()
    V, X, pr, defn, left, right = instances(v, p)
    N = length(v, pr, norm)
    v.true(N >= 0, 'positive')
    for j in R3:
        t = S(ZERO)
        for c in R3:
            w, d = quotient(v, p, c)
            t = t + w / d * v.at(p.h.points, p.tri[c], j)
        lhs = t * N - v.at(p.src, p.s, j)
        # sum_c V(c, j) (pr(c) - sum_k B(c, k) x(k)) = 0 and sum_k x(k) (sum_c X(k, c) V(c, j) - delta) = 0
        cert = sum((v.at(V, c, j) * defn[c] for c in R3), S(ZERO)) + sum((v.at(p.src, p.s, k) * left[k][j] for k in R3), S(ZERO))
        v.eq(lhs - cert, 0, 'weighted positions')


for _n, _a in ((2, 1), (None, 0), (1, 1), (3, 1)):
    obligation('C11', f'direction_norm{_n or "default"}_a{_a}', assumptions=[HULL, LIN])(
        (lambda n, a: lambda v: direction(v, n, a))(_n, _a))


@obligation('C11', 'row_locality', assumptions=[HULL])
def _(v):
    """row s of a call with many sources is the result of a call with source s alone"""
    small(v)
    h, L, M = layout(v)
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))
    g = v.call(decoder.vbap, src, h)
    s, l = v.index('s', 0, Q), v.index('l', 0, L)
    one = v.call(decoder.vbap, src[s], h)
    v.same_shape(one, (1, L), 'shape')
    v.eq(v.at(one, 0, l), v.at(g, s, l), 'row')
    v.frame()


@obligation('C11', 'retained', assumptions=[HULL])
def _(v):
    """outside sources retained: the gains on the extended layout without the columns of the imaginary loudspeakers"""
    small(v)
    h, L, M = layout(v)
    e, L2, M2 = layout(v, 'e')
    h.ambisonics_hull = e
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))
    n = v.int('n', 1)
    v.assume(L2 - L - n == 0)
    s, l = v.index('s', 0, Q), v.index('l', 0, L)
    full = v.call(decoder.vbap, src, e)
    e.imaginary_ls_idx = v.call(np.arange, L2 - n, L2)
    g = v.call(decoder.vbap, src, h, retain_outside=True)
    v.same_shape(g, (Q, L), 'one column per real loudspeaker')
    v.eq(v.at(g, s, l), v.at(full, s, l), 'gains')
    e.imaginary_ls_idx = None
    v.raises(ValueError, decoder.vbap, src, h, retain_outside=True)
    h.ambisonics_hull = []
    v.raises(ValueError, decoder.vbap, src, h, retain_outside=True)
    v.frame()


@obligation('C11', 'retained_single', assumptions=[HULL])
def _(v):
    """the same for one imaginary loudspeaker given by its number"""
    small(v)
    h, L, M = layout(v)
    e, L2, M2 = layout(v, 'e')
    h.ambisonics_hull = e
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))
    v.assume(L2 - L - 1 == 0)
    s, l = v.index('s', 0, Q), v.index('l', 0, L)
    full = v.call(decoder.vbap, src, e)
    i = v.index('i', 0, L2)
    e.imaginary_ls_idx = i
    g = v.call(decoder.vbap, src, h, retain_outside=True)
    v.same_shape(g, (Q, L), 'one column per real loudspeaker')
    if v.holds(l < i):
        v.eq(v.at(g, s, l), v.at(full, s, l), 'gains before')
    else:
        v.eq(v.at(g, s, l), v.at(full, s, l + 1), 'gains after')
    v.frame()


def vbip(v, norm):
    """square roots of the panning gains, negative ones set to zero, scaled to unit norm"""
    h, L, M = layout(v)
    Q = v.int('Q', 1)
    src = v.array('src', (Q, 3))
    G = v.array('G', (Q, L))
    opts = []

    def vbap(I, s, hull, norm=2, valid_simplices=None, retain_outside=False, jobs_count=1):
        v.eq(s, src, 'sources')
        if hull is not h or norm != 2 or valid_simplices is not opts[0] or retain_outside is not opts[1]:
            v.fail('other panning gains than those of the arguments')
        return Arr((Q, L), lambda i: T.app('G', *i, sort='R'), 'R')
    v.contract(decoder.vbap, vbap)
    s, l = v.index('s', 0, Q), v.index('l', 0, L)
    for tri, keep in ((None, False), (v.array('t2', (M, 3), 'I'), False), (None, True)):
        opts[:] = [tri, keep]
        r = v.call(decoder.vbip, src, h, valid_simplices=tri, retain_outside=keep, **({} if norm is None else dict(norm=norm)))
        v.same_shape(r, (Q, L), 'shape')
        x = v.at(G, s, l)
        root = v.call(np.sqrt, v.call(np.maximum, x, 0))
        pos = lambda k: v.call(np.maximum, v.at(G, s, k), 0)
        if norm is not None:
            n = v.sum(0, L, lambda k: v.call(np.sqrt, pos(k)) ** norm) ** (S(ONE) / norm if norm > 1 else 1)
        else:
            n = v.call(np.sqrt, v.sum(0, L, pos))
        if v.holds(n > 0):
            v.eq(v.at(r, s, l) * n, root, 'gain')
        else:
            v.eq(v.at(r, s, l), root, 'no gain')
    v.frame()


for _n in (None, 1, 3):
    obligation('C11', f'vbip_norm{_n or "default"}', assumptions=[HULL])((lambda n: lambda v: vbip(v, n))(_n))
