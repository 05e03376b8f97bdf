"""C21: loudspeaker layouts."""
from ..vc import obligation
from ..sym import S, Arr, SList, Masked, lift
from .. import sym as Y
from .. import terms as T
from ..terms import P_, ONE, ZERO
import numpy as np
from spaudiopy import decoder, utils, grids

PI = S(P_(T.PI))


class Hull:
    """hull with any number of points and faces"""


def hull(v, distinct=False):
    h = Hull()
    n, F = v.int('n', 4), v.int('F', 4)
    h.points = v.array('p', (n, 3))
    h.npoints = n
    h.simplices = v.array('s', (F, 3), sort='I')
    s = lambda k, c: v.at(h.simplices, k, c)
    v.forall(lambda k: [q for c in range(3) for q in (s(k, c) >= 0, s(k, c) < n)], 0, F)
    if distinct:
        v.forall(lambda k: [s(k, 0) != s(k, 1), s(k, 1) != s(k, 2), s(k, 0) != s(k, 2)], 0, F)
    h.valid_simplices = h.simplices
    h.listener_position = v.array('lp', (3,))
    h.n, h.F = n, F
    return h


def vec(v, a, *i):
    return [v.at(a, *i, c) for c in range(3)]


def corners(v, h, k):
    return [vec(v, h.points, v.at(h.simplices, k, c)) for c in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def angle(v, a, b):
    """the angle between two vectors, symmetric: see angle_between"""
    return S(T.app('angle', lift(dot(a, b)), lift(dot(a, a) * dot(b, b)), sort='R', nn=True))


def angle_contract(v):
    def between(I, v1, v2, vi=None):
        a, b = [[v.at(x, c) - (0 if vi is None else v.at(vi, c)) for c in range(3)] for x in (v1, v2)]
        return angle(v, a, b)
    v.contract(utils.angle_between, between)


@obligation('C21', 'angle_between')
def _(v):
    """the angle between two vectors seen from a third: arccos of their normalised product, the same either way around"""
    a, b, o = (v.array(c, (3,)) for c in 'abo')
    for args, A, B in (((a, b), vec(v, a), vec(v, b)), ((a, b, o), sub(vec(v, a), vec(v, o)), sub(vec(v, b), vec(v, o)))):
        c = dot(A, B) / (v.call(np.sqrt, dot(A, A)) * v.call(np.sqrt, dot(B, B)))
        r = v.call(np.arccos, v.call(np.clip, c, -1, 1))
        v.eq(v.call(utils.angle_between, *args), r, 'angle')
        v.eq(v.call(utils.angle_between, args[1], args[0], *args[2:]), r, 'symmetric')
    v.frame()


def selection(v, got, src, keep, k, what):
    """got: exactly the rows k of src with keep, unchanged and in order"""
    v.need(isinstance(got, Masked), what + ': not a selection of the faces')
    v.eq(S(P_(got.shape_[0])), S(P_(src.shape_[0])), what + ': faces looked at')
    i = lift(k)
    v.eq(S(got.mask((i, P_(0)))), keep, what + ': which faces are kept')
    for c in range(3):
        v.eq(S(got.mask((i, P_(c))) * got.val((i, P_(c)))), keep * v.at(src, k, c), what + ': the faces kept')


def face(v, h):
    k = v.index('k', 0, h.F)
    v.instantiate(k)
    return k


@obligation('C21', 'centroids_areas')
def _(v):
    """centroid and area of every face are those of its vertices, any number of points and faces"""
    h = hull(v)
    c, a = v.call(decoder.calculate_centroids, h), v.call(decoder.calculate_face_areas, h)
    v.same_shape(c, (h.F, 3), 'centroids')
    v.same_shape(a, (h.F,), 'areas')
    k = face(v, h)
    A, B, D = corners(v, h, k)
    for q in range(3):
        v.eq(v.at(c, k, q), (A[q] + B[q] + D[q]) / 3, 'centroid')
    n = cross(sub(B, A), sub(D, A))
    v.eq(v.at(a, k), v.call(np.sqrt, dot(n, n)) / 2, 'area')
    b = v.call(decoder.calculate_barycenter, h)
    for q in range(3):
        v.eq(v.at(b, q), v.sum(0, h.n, lambda i: v.at(h.points, i, q)) / h.n, 'barycenter')
    v.frame()


@obligation('C21', 'normals')
def _(v):
    """every normal is the cross product of the edges of its face, turned away from the barycentre"""
    h = hull(v)
    eps = v.real('eps', nonneg=True)
    for norm in (False, True):
        N = v.call(decoder.calculate_face_normals, h, eps, norm)
        v.same_shape(N, (h.F, 3), 'normals')
        k = face(v, h)
        A, B, D = corners(v, h, k)
        n = cross(sub(B, A), sub(D, A))
        b = [v.sum(0, h.n, lambda i: v.at(h.points, i, q)) / h.n for q in range(3)]
        to = sub(b, [(A[q] + B[q] + D[q]) / 3 for q in range(3)])
        turned = S(ONE - T.ind_ge(lift(eps - dot(n, to))))
        size = v.call(np.sqrt, dot(n, n)) if norm else 1
        for q in range(3):
            v.eq(v.at(N, k, q) * size, n[q] * (1 - 2 * turned), 'normal')
        if not norm:
            v.true(dot(vec(v, N, k), to) <= eps, 'points away from the barycentre')
    v.frame()


@obligation('C21', 'listener_inside')
def _(v):
    """the faces valid at first: those with listener and barycentre on the same side"""
    h = hull(v)
    h.centroids, h.barycenter = v.array('c', (h.F, 3)), v.array('b', (3,))
    pos = v.array('pos', (3,))
    for args, o in (((), h.listener_position), ((pos,), pos)):
        r = v.call(decoder.check_listener_inside, h, *args)
        k = face(v, h)
        c = vec(v, h.centroids, k)
        d = dot(sub(vec(v, o), c), sub(vec(v, h.barycenter), c))
        selection(v, r, h.simplices, S(T.ind_ge(lift(d))), k, 'listener inside')
    v.frame()


@obligation('C21', 'check_normals')
def _(v):
    """of the faces still valid exactly those are removed whose normal deviates from the direction of their centroid by more than the
    limit"""
    h = hull(v)
    angle_contract(v)
    h.centroids, h.face_normals = v.array('c', (h.F, 3)), v.array('fn', (h.F, 3))
    valid = lambda f: S(T.ind_ge(T.app('valid', *[lift(v.at(f, c)) for c in range(3)], sort='R')))
    h.is_simplex_valid = lambda f: valid(f)
    lim, pos = v.real('limit'), v.array('pos', (3,))
    for args, o in (((lim,), h.listener_position), ((lim, pos), pos)):
        r = v.call(decoder.check_normals, h, *args)
        k = face(v, h)
        over = angle(v, sub(vec(v, h.centroids, k), vec(v, o)), sub(vec(v, h.face_normals, k), vec(v, o))) > lim % 360 * PI / 180
        selection(v, r, h.simplices, valid(h.simplices[k]) * (1 - over), k, 'normals')
    v.frame()


@obligation('C21', 'check_aperture')
def _(v):
    """exactly the faces seen from the listener under more than the limit are removed"""
    h = hull(v)
    angle_contract(v)
    lim, pos = v.real('limit'), v.array('pos', (3,))
    for args, o in (((lim,), h.listener_position), ((lim, pos), pos)):
        r = v.call(decoder.check_aperture, h, *args)
        k = face(v, h)
        A = [sub(x, vec(v, o)) for x in corners(v, h, k)]
        keep = 1
        for a, b in ((0, 1), (1, 2), (0, 2)):
            keep = keep * (1 - (angle(v, A[a], A[b]) > lim % 360 * PI / 180))
        selection(v, r, h.simplices, keep, k, 'aperture')
    v.frame()


@obligation('C21', 'check_opening')
def _(v):
    """exactly the faces with an angle above the limit are removed"""
    h = hull(v)
    angle_contract(v)
    lim = v.real('limit')
    r = v.call(decoder.check_opening, h, lim)
    k = face(v, h)
    A = corners(v, h, k)
    keep = 1
    for o, a, b in ((0, 1, 2), (1, 0, 2), (2, 0, 1)):
        keep = keep * (1 - (angle(v, sub(A[a], A[o]), sub(A[b], A[o])) > lim % 360 * PI / 180))
    selection(v, r, h.simplices, keep, k, 'opening')
    v.frame()


@obligation('C21', 'blacklist')
def _(v):
    """exactly the faces that contain every vertex of the blacklist are removed, whatever the vertices, for blacklists of up to three;
    no blacklist removes nothing"""
    h = hull(v)
    k = face(v, h)
    v.true(v.call(decoder.apply_blacklist, h, None).shape == h.simplices.shape, 'no blacklist')
    v.eq(v.call(decoder.apply_blacklist, h, None), h.simplices, 'no blacklist')
    names = [v.int('a'), v.int('b'), v.int('c')]
    for m in range(1, 4):
        r = v.call(decoder.apply_blacklist, h, names[:m])
        inside = 1
        for b in names[:m]:
            inside = inside * (1 - (1 - (v.at(h.simplices, k, 0) == b)) * (1 - (v.at(h.simplices, k, 1) == b)) * (1 - (v.at(h.simplices, k, 2) == b)))
        selection(v, r, h.simplices, 1 - inside, k, 'blacklist')
    v.frame()


@obligation('C21', 'sort_vertices')
def _(v):
    """the vertices of every face are kept, the smallest comes first"""
    F = v.int('F', 1)
    s = v.array('s', (F, 3), sort='I')
    r = v.call(decoder.sort_vertices, s)
    v.same_shape(r, (F, 3), 'shape')
    k, x = v.index('k', 0, F), v.int('x')
    v.eq(sum((v.at(r, k, c) == x) * 1 for c in range(3)), sum((v.at(s, k, c) == x) * 1 for c in range(3)), 'vertices of a face')
    for c in range(3):
        v.true(v.at(r, k, 0) <= v.at(s, k, c), 'smallest first')
    v.frame()


@obligation('C21', 'is_simplex_valid')
def _(v):
    """a face is valid iff all vertices of some valid face are among its vertices"""
    V = v.int('V', 1)
    h = object.__new__(decoder.LoudspeakerSetup)
    h.valid_simplices = v.array('s', (V, 3), sort='I')
    f = v.array('f', (3,), sort='I')
    r = v.call(decoder.LoudspeakerSetup.is_simplex_valid, h, f)
    inn = lambda x: 1 - (1 - (x == v.at(f, 0))) * (1 - (x == v.at(f, 1))) * (1 - (x == v.at(f, 2)))
    same = lambda k: inn(v.at(h.valid_simplices, k, 0)) * inn(v.at(h.valid_simplices, k, 1)) * inn(v.at(h.valid_simplices, k, 2))
    v.eq(1 * (S(lift(r)) == 1), 1 - (v.sum(0, V, same) == 0), 'valid')


class Removed:
    """the faces left of `of` after one criterion"""

    def __init__(self, of, by, with_):
        self.of, self.by, self.with_ = of, by, with_


@obligation('C21', 'pop_triangles')
def _(v):
    """exactly the criteria given are applied, each with its own limit and at the listener of the setup, to what the others have left; by
    contract of the criteria (check_normals, check_aperture, check_opening, apply_blacklist) each keeps exactly the faces within its limit, so
    that their order is irrelevant"""
    at = v.array('lp', (3,))
    for f in ('check_normals', 'check_aperture', 'check_opening', 'apply_blacklist'):
        def crit(I, hull, lim=None, pos=None, f=f):
            if f == 'apply_blacklist' and lim is None:
                return hull.valid_simplices
            v.need(lim is not None and (pos is None or pos is at), 'limit given, seen from the listener')
            return Removed(hull.valid_simplices, f, lim)
        v.contract(getattr(decoder, f), crit)
    for m in range(16):
        h = object.__new__(decoder.LoudspeakerSetup)
        h.valid_simplices, h.listener_position = first, _ = object(), at
        want = {}
        kw = dict(normal_limit=None)
        for q, f in enumerate(('normal_limit', 'aperture_limit', 'opening_limit')):
            if m >> q & 1:
                kw[f] = want['check_' + f[:-6].replace('normal', 'normals')] = v.real(f)
        if m & 8:
            kw['blacklist'] = want['apply_blacklist'] = [v.int('a'), v.int('b')]
        v.call(decoder.LoudspeakerSetup.pop_triangles, h, **kw)
        got, x = {}, h.valid_simplices
        while isinstance(x, Removed):
            v.true(x.by not in got, 'each criterion once')
            got[x.by] = x.with_
            x = x.of
        v.true(x is first, 'only faces valid before')
        v.true(set(got) == set(want), f'criteria applied: {sorted(got)}, given: {sorted(want)}')
        for f in want:
            if f == 'apply_blacklist':
                v.true(got[f] is want[f], 'blacklist')
            else:
                v.eq(got[f], want[f], 'limit of ' + f)
    h = object.__new__(decoder.LoudspeakerSetup)
    h.valid_simplices, h.listener_position = first, at
    v.call(decoder.LoudspeakerSetup.pop_triangles, h)
    x = h.valid_simplices
    v.need(isinstance(x, Removed), 'default criterion')
    v.true(x.of is first and x.by == 'check_normals', 'by default the normals are checked')
    v.eq(x.with_, 85, 'default limit')


class Qhull:
    pass


def qhull_contract(v):
    """contract of scipy: the hull of points that all lie on it has those points and vertices in input order, and any faces of them"""
    made = []

    def convex(I, points, incremental=False, qhull_options=None):
        q = Qhull()
        q.points = points
        q.npoints = S(P_(points.shape_[0]))
        q.vertices = v.call(np.arange, q.npoints)
        q.nsimplex = F = v.int(f'F{len(made)}', 4)
        q.simplices = v.array(f'qs{len(made)}', (F, 3), sort='I')
        made.append(q)
        return q
    import scipy.spatial
    v.contract(scipy.spatial.ConvexHull, convex)

    def srt(I, s):
        r = v.array('sorted', (s.shape_[0], 3), sort='I')
        v.forall(lambda k: [q for c in range(3) for q in (v.at(r, k, c) >= 0, v.at(r, k, c) < made[0].npoints)], 0, S(P_(s.shape_[0])))
        made.append(r)
        return r
    v.contract(decoder.sort_vertices, srt)
    return made


def setup_facts(v, h, n, xyz, o, made):
    """what LoudspeakerSetup promises about a layout at xyz - o"""
    j = v.index('j', 0, n)
    v.instantiate(j)
    p = [v.at(xyz[c], j) - o[c] for c in range(3)]
    for c, name in enumerate('xyz'):
        v.same_shape(getattr(h, name), (n,), name)
        v.eq(v.at(getattr(h, name), j), p[c], name + ' shifted by the listener position')
        v.eq(v.at(h.points, j, c), p[c], 'points shifted by the listener position')
        v.eq(v.at(h.listener_position, c), 0, 'listener in the origin')
    v.eq(v.at(h.d, j), v.call(np.sqrt, dot(p, p)), 'distance')
    v.same_shape(h.ls_gains, (n,), 'gains')
    v.eq(v.at(h.ls_gains, j), 1, 'gains')
    v.eq(h.npoints, n, 'number of loudspeakers')
    v.need(len(made) == 2, 'one hull, its faces sorted once')
    v.true(h.simplices is made[1], 'faces of the hull, sorted')
    F = S(P_(h.simplices.shape_[0]))
    v.eq(h.nsimplex, F, 'number of faces')
    k = v.index('k', 0, F)
    v.instantiate(k)
    A, B, D = [[v.at(h.points, v.at(h.simplices, k, c), q) for q in range(3)] for c in range(3)]
    e = cross(sub(B, A), sub(D, A))
    v.eq(v.at(h.face_areas, k), v.call(np.sqrt, dot(e, e)) / 2, 'areas')
    bary = [v.sum(0, n, lambda i: v.at(h.points, i, q)) / n for q in range(3)]
    cen = [(A[q] + B[q] + D[q]) / 3 for q in range(3)]
    to = sub(bary, cen)
    turned = 0
    for q in range(3):
        v.eq(v.at(h.centroids, k, q), cen[q], 'centroids')
        v.eq(v.at(h.barycenter, q), bary[q], 'barycenter')
        v.eq((v.at(h.face_normals, k, q) - e[q]) * (v.at(h.face_normals, k, q) + e[q]), 0, 'normals')
    v.true(dot(vec(v, h.face_normals, k), to) <= 1e-5, 'normals point away from the barycentre')
    sel = S(T.ind_ge(lift(-dot(cen, to))))
    for x, what in ((h.valid_simplices, 'valid faces'), (h._encloses_listener, 'faces enclosing the listener')):
        selection(v, x, h.simplices, sel, k, what)


for _o in ('default', 'given'):
    @obligation('C21', f'setup_{_o}_listener')
    def _(v, o=_o):
        """a layout is shifted by exactly the listener position, its faces, areas, centroids, normals and first valid faces are those of the
        shifted points"""
        n = v.int('n', 4)
        xyz = [v.array(c, (n,)) for c in 'xyz']
        pos = v.array('pos', (3,))
        made = qhull_contract(v)
        h = object.__new__(decoder.LoudspeakerSetup)
        N = {}
        v.contract(decoder.calculate_vertex_normals, lambda I, hull, normalize=False: N.setdefault('n', (hull.simplices, hull.face_normals, hull.face_areas, object()))[3])
        v.call(decoder.LoudspeakerSetup.__init__, h, *xyz, *((pos,) if o == 'given' else ()))
        setup_facts(v, h, n, xyz, vec(v, pos) if o == 'given' else [0, 0, 0], made)
        v.need('n' in N, 'vertex normals by their function')
        v.true(h.vertex_normals is N['n'][3] and N['n'][0] is h.simplices and N['n'][1] is h.face_normals and N['n'][2] is h.face_areas, 'vertex normals of these faces')
        v.true(h.ambisonics_hull == [] and h.kernel_hull == [] and h.characteristic_order is None, 'no ambisonics hull yet')
        v.frame()


@obligation('C21', 'vertex_normals')
def _(v):
    """the normal of a vertex is the sum of the normals of the faces it belongs to, weighted by their areas"""
    h = hull(v)
    h.vertices = v.call(np.arange, h.n)
    h.face_areas, h.face_normals = v.array('a', (h.F,)), v.array('fn', (h.F, 3))
    N = v.call(decoder.calculate_vertex_normals, h)
    v.same_shape(N, (h.n, 3), 'shape')
    j = v.index('j', 0, h.n)
    s = lambda k, c: 1 - (v.at(h.simplices, k, c) == j)
    for q in range(3):
        v.eq(v.at(N, j, q), v.sum(0, h.F, lambda k: (1 - s(k, 0) * s(k, 1) * s(k, 2)) * v.at(h.face_areas, k) * v.at(h.face_normals, k, q)), 'vertex normal')
    v.frame()


@obligation('C21', 'from_sph')
def _(v):
    """spherical positions and a spherical listener position are converted and passed on"""
    n = v.int('n', 4)
    azi, zen, r = (v.array(c, (n,)) for c in ('azi', 'zen', 'r'))
    pos = v.array('pos', (3,))
    got = []

    def init(I, self, x, y, z, listener_position=None):
        got.append((x, y, z, listener_position))
    v.contract(decoder.LoudspeakerSetup.__init__, init)
    sin, cos = (lambda x: v.call(np.sin, x)), (lambda x: v.call(np.cos, x))
    cart = lambda a, z, d: (d * cos(a) * sin(z), d * sin(a) * sin(z), d * cos(z))
    for args, rad, at in (((azi, zen), 1, None), ((azi, zen, r), r, None), ((azi, zen, r, pos), r, pos)):
        del got[:]
        v.call(decoder.LoudspeakerSetup.from_sph.__func__, decoder.LoudspeakerSetup, *args)
        v.need(len(got) == 1, 'one setup')
        k = v.index('k', 0, n)
        want = cart(v.at(azi, k), v.at(zen, k), 1 if rad is not r else v.at(r, k))
        for c in range(3):
            v.same_shape(got[0][c], (n,), 'positions')
            v.eq(v.at(got[0][c], k), want[c], 'positions')
        lp = got[0][3]
        want = [0, 0, 0] if at is None else cart(v.at(pos, 0), v.at(pos, 1), v.at(pos, 2))
        for c in range(3):
            v.eq(0 if lp is None else lp[c] if isinstance(lp, (list, tuple)) else v.at(lp, c), want[c], 'listener')
    v.frame()


for _mode in ('off', 'found', 'one', 'several'):
    @obligation('C21', f'ambisonics_setup_{_mode}')
    def _(v, mode=_mode):
        """the ambisonics hull keeps all loudspeakers in place, the imaginary ones follow and exactly these are marked"""
        n = v.int('n', 4)
        h = object.__new__(decoder.LoudspeakerSetup)
        h.points, h.npoints = v.array('p', (n, 3)), n
        h.listener_position = v.array('lp', (3,))
        h.x, h.y, h.z = (h.points[:, c] for c in range(3))
        h.characteristic_order, h.ambisonics_hull, h.kernel_hull = None, [], []
        before = v.state(h)
        m = 1 if mode in ('found', 'one') else v.int('m', 1)
        new = v.array('new', (3,) if mode == 'one' else (m, 3))
        made = []

        def init(I, self, x, y, z, listener_position=None):
            made.append((self, x, y, z, listener_position))
            self.points = v.call(np.stack, (x, y, z), axis=1)
            self.ambisonics_hull, self.kernel_hull, self.characteristic_order = [], [], None
        v.contract(decoder.LoudspeakerSetup.__init__, init)
        v.contract(decoder.find_imaginary_loudspeaker, lambda I, hull: new if hull is h else v.fail('another hull'))
        v.contract(decoder.characteristic_ambisonic_order, lambda I, hull: v.int('Nc', 1) if hull is h else v.fail('another hull'))
        J = v.int('J', 4)
        pts = v.array('design', (J, 3))
        N = v.int('Nk', 1)
        v.contract(grids.load_n_design, lambda I, d: (v.eq(d, 2 * N, 'degree of the kernel'), pts)[1])
        kern = []

        def get_hull(I, x, y, z):
            q = Qhull()
            kern.append((q, x, y, z))
            return q
        v.contract(decoder.get_hull, get_hull)
        kw = dict(N_kernel=N)
        if mode != 'off':
            kw['update_hull'] = True
        if mode in ('one', 'several'):
            kw['imaginary_ls'] = new
        v.call(decoder.LoudspeakerSetup.ambisonics_setup, h, **kw)
        v.need(len(made) == 1 and len(kern) == 1, 'one ambisonics hull and one kernel')
        A = h.ambisonics_hull
        v.true(A is made[0][0], 'ambisonics hull kept')
        lp = made[0][4]
        v.true(lp is None, 'no further offset') if lp is None else [v.eq(v.at(lp, c), 0, 'no further offset') for c in range(3)]
        total = n if mode == 'off' else n + m
        k = v.index('k', 0, n)
        q = v.index('q', 0, m)
        for c in range(3):
            x = made[0][1 + c]
            v.same_shape(x, (total,), 'loudspeakers of the hull')
            v.eq(v.at(x, k), v.at(h.points, k, c), 'real loudspeakers stay')
            if mode != 'off':
                v.eq(v.at(x, n + q), v.at(new, c) if mode == 'one' else v.at(new, q, c), 'imaginary loudspeakers follow')
            j = v.index('j', 0, J)
            v.same_shape(kern[0][1 + c], (J,), 'kernel')
            v.eq(v.at(kern[0][1 + c], j), v.at(pts, j, c), 'kernel')
        idx = A.imaginary_ls_idx
        if mode == 'off':
            v.true(idx is None, 'nothing marked')
        elif isinstance(idx, Arr) and idx.ndim:
            v.same_shape(idx, (m,), 'marked')
            v.eq(v.at(idx, q), n + q, 'marked')
        else:
            v.eq(idx, n, 'marked')
        v.true(h.kernel_hull is kern[0][0], 'kernel kept')
        v.eq(h.kernel_hull.N_kernel, N, 'kernel order')
        v.eq(h.characteristic_order, S(P_(T.var('Nc', 'I', True))), 'characteristic order')
        v.same_state(before, but=('ambisonics_hull', 'kernel_hull', 'characteristic_order'))
        v.frame()
