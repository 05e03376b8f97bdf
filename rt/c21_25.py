"""C21 loudspeaker layouts, C22 grids, C24 magLS, C25 nearest neighbours"""
import warnings
import numpy as np
from scipy.spatial import ConvexHull
from vlib.rt import contract
from rt import layouts as lay
from rt.c04_08 import Ymat
from rt.c19_20_23 import hrirs, nearest
import spaudiopy as spa
from spaudiopy import decoder, grids, sig, sph, utils


def ang(a, b, o=0):
    a, b = np.asarray(a) - o, np.asarray(b) - o
    return np.arctan2(np.linalg.norm(np.cross(a, b)), np.dot(a, b))


def fset(s):
    return {tuple(sorted(int(v) for v in f)) for f in np.asarray(s).reshape(-1, 3)}


# ------------------------------------------------------------------ C21
@contract('C21', cases=80, thorough=900, fns=['decoder.LoudspeakerSetup', 'decoder.calculate_face_normals',
                                              'decoder.calculate_centroids', 'decoder.calculate_face_areas'])
def geometry(g):
    p = lay.convex(g)
    off = g.choice([None, None, g.rng.uniform(-.05, .05, 3)])
    kind = g.choice(['xyz', 'xyz', 'sph', 'list'])
    g.note(points=p, listener=off, kind=kind)
    if off is not None and not lay.inside(p - off):
        g.skip()
    if kind == 'sph':
        azi, zen, r = utils.cart2sph(*p.T)
        o = None
        if off is not None:
            o = [float(v) for v in utils.cart2sph(*off)]
        h = decoder.LoudspeakerSetup.from_sph(azi, zen, r, listener_position=o)
    else:
        c = [v.tolist() for v in p.T] if kind == 'list' else [v.copy() for v in p.T]
        h = decoder.LoudspeakerSetup(*c, listener_position=None if off is None else (off if g.bool() else off.tolist()))
    q = p - (0 if off is None else off)
    g.close(h.points, q, 'all positions shifted by the listener offset', 1e-9)
    g.close(np.array([h.x, h.y, h.z]).T, q, 'x, y, z shifted', 1e-9)
    g.close(h.d, np.linalg.norm(q, axis=1), 'distances', 1e-9)
    g.check(h.npoints == len(p), 'number of points')
    faces = fset(ConvexHull(h.points).simplices)
    g.check(len(h.simplices) == h.nsimplex == len(faces), 'number of faces')
    g.check(fset(h.simplices) == faces, 'faces of the hull keep their vertex sets')
    for f in h.simplices:
        g.check(f[0] == min(f), 'faces start with their smallest vertex')
    for i, f in enumerate(h.simplices):
        v = q[f]
        g.close(h.centroids[i], v.mean(0), f'centroid of face {f}', 1e-9)
        n = np.cross(v[1] - v[0], v[2] - v[0])
        g.close(h.face_areas[i], np.linalg.norm(n) / 2, f'area of face {f}', 1e-9)
        fn = h.face_normals[i]
        g.close(np.linalg.norm(fn), np.linalg.norm(n), f'length of the normal of face {f}', 1e-9)
        g.close(np.cross(fn, n), np.zeros(3), f'normal of face {f} is perpendicular', 1e-9)
        if np.linalg.norm(n) > 1e-2 and np.min(np.linalg.norm(n) * abs(np.dot(n / np.linalg.norm(n), v[0]))) > 1e-3:
            g.check(np.dot(fn, v[0]) > 0, f'normal of face {f} points away from the listener')
            g.check(np.all((q - v[0]) @ fn <= 1e-9), f'normal of face {f} points out of the hull')
    g.close(h.barycenter, q.mean(0), 'barycenter', 1e-9)
    un = decoder.calculate_face_normals(h, normalize=True)
    g.close(np.linalg.norm(un, axis=1), np.ones(len(un)), 'normalised face normals', 1e-9)
    g.close(un * np.linalg.norm(h.face_normals, axis=1)[:, None], h.face_normals, 'normalised normals keep direction', 1e-9)
    for k in range(len(q)):
        m = [k in f for f in h.simplices]
        g.close(h.vertex_normals[k], (h.face_areas[m][:, None] * h.face_normals[m]).sum(0), f'vertex normal {k}', 1e-9)
    # faces valid by default: listener and barycentre on the same side of the face
    exp = []
    for f in h.simplices:
        c = q[f].mean(0)
        if np.dot(-c, q.mean(0) - c) >= 0:
            exp.append(tuple(f))
    g.check([tuple(f) for f in h.valid_simplices] == exp, 'default valid faces')
    for f in h.simplices:
        g.check(bool(h.is_simplex_valid(g.rng.permutation(f))) == (tuple(sorted(f)) in fset(h.valid_simplices)),
                'is_simplex_valid')


def viol_normal(q, f, lim):
    v = q[f]
    c = v.mean(0)
    n = np.cross(v[1] - v[0], v[2] - v[0])
    if np.dot(n, q.mean(0) - c) > 0:
        n = -n
    return ang(c, n) - np.deg2rad(lim % 360)


def viol_aperture(q, f, lim):
    v = q[f]
    return max(ang(v[0], v[1]), ang(v[1], v[2]), ang(v[0], v[2])) - np.deg2rad(lim % 360)


def viol_opening(q, f, lim):
    v = q[f]
    return max(ang(v[1], v[2], v[0]), ang(v[0], v[2], v[1]), ang(v[0], v[1], v[2])) - np.deg2rad(lim % 360)


@contract('C21', cases=120, thorough=1500, fns=['decoder.LoudspeakerSetup.pop_triangles', 'decoder.check_normals',
                                                'decoder.check_aperture', 'decoder.check_opening', 'decoder.apply_blacklist'])
def refinement(g):
    p = lay.dome(g) if g.bool(.35) else lay.convex(g)
    if g.bool(.3):
        p = p + np.array([0, 0, g.real(-.1, .1)])
        if len(ConvexHull(p).vertices) != len(p):
            g.skip()
    h = lay.setup(p)
    cur = [tuple(int(v) for v in f) for f in h.valid_simplices]
    snap = {k: np.array(getattr(h, k)) for k in ('points', 'simplices', 'centroids', 'face_areas', 'face_normals',
                                                   'vertex_normals', 'x', 'y', 'z', 'd')}
    hist = []
    for step in range(g.int(1, 3)):
        nl = g.choice([None, None, 85, 60, 89, g.real(5, 89)])
        al = g.choice([None, None, 90, 100, g.real(20, 150)])
        ol = g.choice([None, None, 135, 120, g.real(60, 150)])
        bl = None
        if g.bool(.4) and cur:
            f = list(g.choice(cur))
            bl = g.choice([f, f[:2], f[:1], [f[1], f[0]], [0, 1], f[::-1], [len(p) + 3], [*f, len(p) + 1]])
        hist.append((nl, al, ol, bl))
        g.log[:] = [f'points={np.round(p, 4).tolist()}', f'limits={hist}']
        keep = []
        for f in cur:
            v = []
            if nl is not None:
                v.append(viol_normal(p, list(f), nl))
            if al is not None:
                v.append(viol_aperture(p, list(f), al))
            if ol is not None:
                v.append(viol_opening(p, list(f), ol))
            if v and np.min(np.abs(v)) < 1e-7:
                g.skip()
            bad = any(x > 0 for x in v) or (bl is not None and set(bl) <= set(f))
            if not bad:
                keep.append(f)
        h.pop_triangles(normal_limit=nl, aperture_limit=al, opening_limit=ol, blacklist=bl)
        got = [tuple(int(v) for v in f) for f in np.asarray(h.valid_simplices).reshape(-1, 3)]
        g.check(set(got) <= set(cur), f'faces {set(got) - set(cur)} appeared')
        g.check(got == keep, f'removed {sorted(set(cur) - set(got))}, expected {sorted(set(cur) - set(keep))}')
        cur = got
        for k, v in snap.items():
            g.same(getattr(h, k), v, f'{k} changed by refinement')
        if not cur:
            break
    if cur:
        v = decoder.apply_blacklist(h, None)
        g.check([tuple(f) for f in v] == cur, 'no blacklist removes nothing')
        # single criteria called directly
        lim = g.real(30, 120)
        r = {tuple(f) for f in decoder.check_aperture(h, lim).reshape(-1, 3)}
        o = g.real(70, 150)
        s = {tuple(f) for f in decoder.check_opening(h, o).reshape(-1, 3)}
        for f in cur:
            x = viol_aperture(p, list(f), lim)
            if abs(x) > 1e-7:
                g.check((f in r) == (x < 0), f'check_aperture({lim}) of face {f}')
            x = viol_opening(p, list(f), o)
            if abs(x) > 1e-7:
                g.check((f in s) == (x < 0), f'check_opening({o}) of face {f}')
        pos = g.rng.uniform(-.1, .1, 3)
        r = {tuple(f) for f in decoder.check_aperture(h, lim, listener_position=pos).reshape(-1, 3)}
        for f in cur:
            x = viol_aperture(p - pos, list(f), lim)
            if abs(x) > 1e-7:
                g.check((f in r) == (x < 0), f'check_aperture({lim}) seen from {pos} of face {f}')


@contract('C21', cases=60, thorough=600, fns=['decoder.sort_vertices'])
def sorting(g):
    n = g.int(1, 30)
    s = np.array([g.rng.permutation(g.int(3, 40))[:3] for _ in range(n)]).astype(g.choice([np.int32, np.int64]))
    s0 = s.copy()
    t = decoder.sort_vertices(s)
    g.note(simplices=s0)
    g.check(np.array_equal(s, s0), 'argument unchanged')
    g.check(t.shape == s.shape, 'shape')
    for a, b in zip(s0, t):
        g.check(sorted(a) == sorted(b), f'vertex set of {a} became {b}')
        g.check(b[0] == min(b), f'{b} starts with its smallest vertex')
    # orientation is reversed consistently: cyclic order of the reversed face
    for a, b in zip(s0, t):
        r = list(a[::-1])
        k = r.index(b[0])
        g.check(r[k:] + r[:k] == list(b), 'consistent orientation')


@contract('C21', cases=40, thorough=400, fns=['decoder.LoudspeakerSetup.ambisonics_setup', 'decoder.find_imaginary_loudspeaker'])
def imaginary(g):
    dome = g.bool(.8)
    p = lay.dome(g) if dome else lay.convex(g)
    h = lay.setup(p)
    if dome:
        h.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150)
    n = h.npoints
    vs = h.valid_simplices.copy()
    upd = dome and g.bool(.85)
    imag = None
    if upd and g.bool(.6):
        k = g.int(1, 3)
        a = g.real(0, 6)
        imag = np.array([[0, 0, -1.]]) if k == 1 else \
            np.array([[.45 * np.cos(a + q * 2 * np.pi / k), .45 * np.sin(a + q * 2 * np.pi / k), -.9] for q in range(k)])
        if k == 1 and g.bool():
            imag = imag[0]
    nk = g.choice([2, 3, 5])
    order = g.choice([None, 1, 3])
    g.note(points=p, update=upd, imag=imag, nk=nk, order=order)
    if order is None:
        try:
            order_e = lay.setup(p) and h.get_characteristic_order()
        except ValueError:
            g.skip()
    else:
        order_e = order
    h.ambisonics_setup(update_hull=upd, imaginary_ls=imag, characteristic_order=order, N_kernel=nk)
    A = h.ambisonics_hull
    g.same(h.points, p, 'real loudspeakers stay in place')
    g.check(np.array_equal(h.valid_simplices, vs), 'valid faces of the layout stay')
    g.same(A.points[:n], p, 'real loudspeakers come first, in place')
    g.check(h.characteristic_order == order_e and h.get_characteristic_order() == order_e, 'characteristic order')
    g.check(h.kernel_hull.N_kernel == nk, 'kernel order')
    g.same(h.kernel_hull.points, grids.load_n_design(2 * nk), 'kernel grid')
    if not upd:
        g.check(A.npoints == n and A.imaginary_ls_idx is None, 'no imaginary loudspeaker')
    else:
        m = 1 if imag is None else len(np.atleast_2d(imag))
        g.check(A.npoints == n + m, 'number of loudspeakers')
        g.same(np.ravel(A.imaginary_ls_idx), np.arange(n, n + m), 'exactly the new ones are marked')
        if imag is not None:
            g.same(A.points[n:], np.atleast_2d(imag), 'imaginary positions')
        else:
            q = A.points[n]
            e = np.zeros(3)
            d = 0
            for f in vs:
                v = p[f]
                nn = np.cross(v[1] - v[0], v[2] - v[0])
                nn = nn * np.sign(np.dot(nn, v.mean(0) - p.mean(0)))
                e += np.linalg.norm(nn) / 2 * nn
                d += np.mean(np.linalg.norm(v, axis=1))
            g.close(q, -e / (d / len(vs)) ** 3, 'imaginary loudspeaker opposite to the mean normal', 1e-8)
            g.check(q[2] < 0, 'imaginary loudspeaker below a dome')


# ------------------------------------------------------------------ C22
def integrals(N, vecs, w):
    """max |sum_q w_q Y_k - 4pi delta| over harmonics up to degree N"""
    azi, zen = np.arctan2(vecs[:, 1], vecs[:, 0]), np.arccos(np.clip(vecs[:, 2] / np.linalg.norm(vecs, axis=1), -1, 1))
    s = _legendre_integral(N, azi, zen, w)
    s[0] -= np.sqrt(4 * np.pi)
    return np.max(np.abs(s))


def _legendre_integral(N, azi, zen, w):
    """sum_q w_q Y_nm(q) for all n <= N through normalised recursions (stable for high degrees)"""
    x, s = np.cos(zen), np.sin(zen)
    out = []
    Pmm = np.full(len(x), np.sqrt(1 / (4 * np.pi)))
    for m in range(N + 1):
        if m:
            Pmm = -np.sqrt((2 * m + 1) / (2. * m)) * s * Pmm
        e = w * np.exp(1j * m * azi)
        p0, p1 = Pmm, np.sqrt(2 * m + 3) * x * Pmm
        out.append(np.sum(e * p0))
        if m < N:
            out.append(np.sum(e * p1))
        for n in range(m + 2, N + 1):
            a = np.sqrt((4. * n * n - 1) / (n * n - m * m))
            b = np.sqrt(((n - 1.) ** 2 - m * m) / (4. * (n - 1) ** 2 - 1))
            p0, p1 = p1, a * (x * p1 - b * p0)
            out.append(np.sum(e * p1))
    return np.array(out)


def unit_rows(g, v, what):
    g.check(v.ndim == 2 and v.shape[1] == 3, f'{what}: shape {v.shape}')
    g.close(np.linalg.norm(v, axis=1), np.ones(len(v)), f'{what}: unit norm', 1e-5)


@contract('C22', cases=21, thorough=21, fns=['grids.load_t_design'])
def t_design(g):
    t = g.index % 21 + 1
    v = grids.load_t_design(t)
    g.note(degree=t)
    unit_rows(g, v, f't-design {t}')
    w = np.full(len(v), 4 * np.pi / len(v))
    g.check(integrals(t, v, w) < 1e-4, f't-design {t} is exact up to degree {t}: {integrals(t, v, w)}')
    for bad in (0, -1, 22, 50):
        g.rejects(lambda: grids.load_t_design(bad), f't-design of degree {bad}', exc=(ValueError,))


@contract('C22', cases=40, thorough=124, fns=['grids.load_n_design'], budget=60)
def n_design(g):
    t = (g.index * 37) % 124 + 1 if g.index >= 20 else g.index + 1
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter('always')
        v = grids.load_n_design(t)
    g.note(degree=t)
    unit_rows(g, v, f'n-design {t}')
    w = np.full(len(v), 4 * np.pi / len(v))
    e = integrals(t, v, w)
    g.check(e < 1e-6, f'n-design returned for degree {t} is exact up to that degree: {e}')
    from scipy.io import loadmat
    import os
    mat = loadmat(os.path.join(os.path.dirname(spa.grids.__file__), '../data/Grids/n_designs_1_124.mat'))
    have = [int(k[1:]) for k in mat if k[0] == 'N' and k[1:].isdigit()]
    r = min(k for k in have if k >= t)
    g.same(v, mat[f'N{r:03}'], f'design of the next available degree {r}')
    g.check((r == t) or len(wl) > 0, 'a replacement is reported')
    for bad in (0, -3, 125, 1000):
        g.rejects(lambda: grids.load_n_design(bad), f'n-design of degree {bad}', exc=(ValueError,))


@contract('C22', cases=40, thorough=129, fns=['grids.load_lebedev'], budget=60)
def lebedev(g):
    t = (g.index * 37) % 129 + 3 if g.index >= 15 else g.index + 3
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter('always')
        v, w = grids.load_lebedev(t)
    g.note(degree=t)
    unit_rows(g, v, f'Lebedev {t}')
    g.check(w.shape == (len(v),), 'as many weights as directions')
    g.close(np.sum(w), 4 * np.pi, 'weights sum to 4 pi', 1e-9)
    e = integrals(t, v, w)
    g.check(e < 1e-8, f'Lebedev grid returned for degree {t} is exact up to that degree: {e}')
    from scipy.io import loadmat
    import os
    mat = loadmat(os.path.join(os.path.dirname(spa.grids.__file__), '../data/Grids/lebedevQuadratures_3_131.mat'))
    have = [int(k[8:]) for k in mat if k.startswith('lebedev_')]
    r = min(k for k in have if k >= t)
    g.same(v, mat[f'lebedev_{r:03}'][:, :3], f'grid of the next available degree {r}')
    g.check((r == t) or any('not defined' in str(x.message) for x in wl), 'a replacement is reported')
    for bad in (0, 2, 132, 500):
        g.rejects(lambda: grids.load_lebedev(bad), f'Lebedev grid of degree {bad}', exc=(ValueError,))


@contract('C22', cases=29, thorough=29, fns=['grids.load_Fliege_Maier_nodes'])
def fliege_maier(g):
    t = g.index % 29 + 2
    v, w = grids.load_Fliege_Maier_nodes(t)
    g.note(order=t)
    unit_rows(g, v, f'Fliege-Maier {t}')
    g.check(w.shape == (len(v),) and len(v) == t * t, f'{len(v)} nodes, {w.shape} weights')
    g.close(np.sum(w), 4 * np.pi, 'weights sum to 4 pi', 1e-4)
    e = integrals(t - 1, v, w)
    g.check(e < 1e-3, f'Fliege-Maier nodes integrate degree {t - 1}: {e}')
    for bad in (0, 1, 31, 100):
        g.rejects(lambda: grids.load_Fliege_Maier_nodes(bad), f'Fliege-Maier of order {bad}', exc=(ValueError,))


@contract('C22', cases=44, thorough=160, fns=['grids.equal_angle', 'grids.gauss', 'grids.equal_polar_angle'], budget=40)
def product_grids(g):
    n = g.index // 2 if g.index < 40 else g.int(20, 45)
    f = [grids.equal_angle, grids.gauss][g.index % 2]
    azi, zen, w = f(n)
    g.note(grid=f.__name__, n=n)
    M = (2 * n + 2) * (2 * n + 2 if f is grids.equal_angle else n + 1)
    g.check(azi.shape == zen.shape == w.shape == (M,), f'{azi.shape} directions, {w.shape} weights')
    g.check(np.all(azi >= 0) and np.all(azi < 2 * np.pi), 'azimuth range')
    g.check(np.all(zen >= 0) and np.all(zen <= np.pi), 'zenith range')
    g.check(np.all(w > 0), 'positive weights')
    g.close(np.sum(w), 4 * np.pi, 'weights sum to 4 pi', 1e-11)
    v = np.array(utils.sph2cart(azi, zen)).T
    g.check(len(np.unique(np.round(v, 9), axis=0)) == M, 'distinct directions')
    s = _legendre_integral(2 * n + 1, azi, zen, w)
    s[0] -= np.sqrt(4 * np.pi)
    g.check(np.max(np.abs(s)) < 1e-10, f'every harmonic up to degree {2 * n + 1} is integrated exactly: {np.max(np.abs(s))}')
    pol, pw = grids.equal_polar_angle(n)
    g.check(pol.shape == pw.shape == (2 * n + 1,), 'circle grid size')
    g.check(np.all(pol >= 0) and np.all(pol < 2 * np.pi), 'polar range')
    g.close(np.sum(pw), 1, 'circle weights sum to one', 1e-12)
    k = np.arange(1, 2 * n + 1)
    if n:
        g.close(np.exp(1j * np.outer(k, pol)) @ pw, np.zeros(len(k)), 'circular harmonics integrate to zero', 1e-10)


@contract('C22', cases=40, thorough=400, fns=['grids.calculate_grid_weights'])
def grid_weights(g):
    N = g.int(1, 5)
    k = g.int(0, 2)
    if k == 0:
        v = grids.load_t_design(min(21, 2 * N + g.int(0, 3)))
    elif k == 1:
        v = grids.load_lebedev(2 * N + 1)[0]
    else:
        v = lay.sphere_points(g, (N + 1) ** 2 + g.int(8, 40))
    v = v @ g.rotation().T
    azi, zen = utils.vec2dir(v).T
    order = g.choice([N, N, None])
    g.note(N=N, points=len(v), order=order)
    if order is None and (k == 2 or len(v) < 4):
        g.skip()
    try:
        w = grids.calculate_grid_weights(azi, zen, order)
    except AssertionError:
        g.skip()
    g.check(w.shape == (len(v),), 'one weight per direction')
    g.close(np.sum(w), 4 * np.pi, 'weights sum to 4 pi', 1e-8)
    M = N if order is not None else 1
    e = _legendre_integral(M, azi, zen, w)
    e[0] -= np.sqrt(4 * np.pi)
    g.check(np.max(np.abs(e)) < 1e-8, f'weights integrate harmonics up to order {M}')


@contract('C22', cases=6, thorough=20, fns=['grids.load_maxDet'])
def maxdet(g):
    for bad in (0, -1, 201, 400):
        g.rejects(lambda: grids.load_maxDet(bad), f'maxDet of degree {bad}', exc=(ValueError,))
    # stored data are not part of the checkout: read through a substitute file with gaps
    from unittest import mock
    t = g.int(1, 12)
    have = sorted({g.int(1, 12), g.int(t, 14), 14})
    data = {f'maxDet_{k:03}': np.c_[g.unit(k + 2), g.rng.uniform(.1, 1, k + 2)] for k in have}
    with mock.patch.object(grids, 'loadmat', lambda *a, **k: data):
        v, w = grids.load_maxDet(t)
    r = min(k for k in have if k >= t)
    g.same(v, data[f'maxDet_{r:03}'][:, :3], 'next available degree')
    g.same(w, data[f'maxDet_{r:03}'][:, 3], 'its weights')


# ------------------------------------------------------------------ C24
def ls_filters(H, N, kc, nfft, taps):
    Yp = np.linalg.pinv(Ymat(N, H.azi, H.zen, 'real'))
    return np.array([Yp @ np.fft.rfft(x, nfft)[:, :kc] for x in (H.left, H.right)])


def decaying(g, n, taps, fs=48000):
    a, z = utils.vec2dir(g.unit(n) if n < 12 else lay.sphere_points(g, n)).T
    t = np.arange(taps)
    d = (2 + 3 * np.cos(a)[:, None] * np.sin(z)[:, None])
    env = np.exp(-np.abs(t - 6 - d) / 3)
    L = g.normal(n, taps) * env
    R = g.normal(n, taps) * np.exp(-np.abs(t - 6 + d) / 3)
    return sig.HRIRs(L, R, a, z, fs)


def untaper(h, taps):
    w = np.ones(taps)
    t = min(32, taps)
    w[-t:] *= np.hanning(2 * t)[t:]
    t = min(4, taps)
    w[:t] *= np.hanning(2 * t)[:t]
    return h, w


@contract('C24', cases=60, thorough=500, fns=['decoder.magls_bin'], budget=40)
def magls(g):
    N = g.int(0, 4)
    taps = g.choice([1, 2, 3, 5, 31, 32, 33, 64, 127, 128, 255, 256, 512, 1023, 1024, 1025, 1500, g.int(1, 400)])
    n = (N + 1) ** 2 + g.int(3, 12)
    fs = g.choice([48000, 44100])
    H = decaying(g, n, taps, fs)
    cont = g.choice(['avg', 'angle', 'delay'])
    nfft = max(1024, taps)
    f = np.fft.rfftfreq(nfft, 1 / fs)
    ft = g.choice([None, g.real(500, 5000), g.real(5000, 15000), fs / 2, fs])
    if N == 0 and ft is None:
        ft = 700.
    kc = int(np.argmin(np.abs(f - (N * 600 if ft is None else ft))))
    if cont != 'delay' and kc <= 5:
        g.skip()
    delay = g.choice([(0, 0), (0, 0), (g.real(-5, 5), g.real(-5, 5)), [1, 2]])
    g.note(N=N, taps=taps, n=n, f_trans=ft, hf_cont=cont, hf_delay=delay, fs=fs)
    # observe the fitted spectrum before the taper: record the inverse transform's argument
    seen = []
    real_irfft = np.fft.irfft

    def irfft(a, n=None, *r, **k):
        seen.append(np.array(a))
        return real_irfft(a, n, *r, **k)
    from unittest import mock
    with mock.patch.object(np.fft, 'irfft', irfft):
        h = decoder.magls_bin(H, N, ft, hf_cont=cont, hf_delay=delay)
    g.check(h.shape == (2, (N + 1) ** 2, taps), f'shape {h.shape}, expected {(2, (N + 1) ** 2, taps)}')
    g.check(np.isrealobj(h) and np.all(np.isfinite(h)), 'real finite filters')
    spec = seen[-1] if seen and seen[-1].shape == (2, (N + 1) ** 2, nfft // 2 + 1) else None
    Y = Ymat(N, H.azi, H.zen, 'real')
    Yp = np.linalg.pinv(Y)
    HH = np.array([np.fft.rfft(x, nfft) for x in (H.left, H.right)])
    # reference spectrum: least squares below, magnitude with continued phase above
    ref = np.zeros((2, (N + 1) ** 2, len(f)), complex)
    for e in range(2):
        ref[e, :, :kc] = Yp @ HH[e][:, :kc]
        if cont == 'avg':
            d = np.mean(np.diff(np.unwrap(np.angle(ref[e, 0, :kc]))[kc - 6:kc - 1]))
        elif cont == 'angle':
            d = np.mean(np.diff(np.unwrap(np.angle(Y @ ref[e][:, :kc]))[:, kc - 6:kc - 1]), axis=-1)
        else:
            d = 0
        d = d - 2 * np.pi * f[1] * delay[e] / fs
        for k in range(kc, len(f)):
            ref[e, :, k] = Yp @ (np.abs(HH[e][:, k]) * np.exp(1j * (np.angle(Y @ ref[e, :, k - 1]) + d)))
    _, w = untaper(h, taps)
    q = real_irfft(ref, nfft)[..., :taps] * w
    if spec is not None:
        g.close(spec[:, :, :kc], ref[:, :, :kc], 'least-squares fit below the transition', 1e-7, scale=np.abs(ref).max() + 1e-300)
        for e in range(2):
            for k in range(kc, len(f), max(1, (len(f) - kc) // 25)):
                # the fit is the projection of a target whose magnitude is that of the responses:
                # exact recovery of the target needs a square system, compare energies of the projection
                g.check(np.linalg.norm(Y @ spec[e, :, k]) <= np.linalg.norm(HH[e][:, k]) * (1 + 1e-7) + 1e-12,
                        'fitted magnitude above the transition exceeds the responses')
    # chaotic phase: the recursion may amplify rounding when a fitted value is near zero
    amp = min(np.min(np.abs(np.einsum('qk,ekf->eqf', Y, ref[:, :, max(0, kc - 7):]))), 1) if kc < len(f) else 1
    if amp > 1e-6:
        g.close(h, q, 'filters equal the reference design', 1e-5, scale=np.abs(q).max() + 1e-300)
    # ears are independent
    X = sig.HRIRs(H.right, H.left, H.azi, H.zen, fs)
    h2 = decoder.magls_bin(X, N, ft, hf_cont=cont, hf_delay=delay[::-1])
    g.close(h2, h[::-1], 'exchanging ears exchanges filters', 1e-8, scale=np.abs(h).max() + 1e-300)
    Z = sig.HRIRs(H.left, g.normal(n, taps), H.azi, H.zen, fs)
    g.close(decoder.magls_bin(Z, N, ft, hf_cont=cont, hf_delay=delay)[0], h[0], 'left filter does not depend on the right ear',
            1e-8, scale=np.abs(h).max() + 1e-300)
    g.rejects(lambda: decoder.magls_bin(H, N, 3000, hf_cont='none'), 'unknown continuation')


@contract('C24', cases=30, thorough=250, fns=['decoder.magls_bin'])
def magls_square(g):
    """with as many directions as harmonics the fit is exact: magnitudes are the responses' own"""
    N = g.int(0, 3)
    n = (N + 1) ** 2
    taps, fs = g.choice([1024, 1025, 1200]), 48000
    for _ in range(20):
        H = decaying(g, n, taps, fs)
        if np.linalg.cond(Ymat(N, H.azi, H.zen, 'real')) < 50:
            break
    else:
        g.skip()
    # rows without taper effects: energy away from both ends
    L, R = np.zeros((n, taps)), np.zeros((n, taps))
    L[:, 200:260], R[:, 210:270] = g.normal(n, 60), g.normal(n, 60)
    H = sig.HRIRs(L, R, H.azi, H.zen, fs)
    ft = g.real(2000, 8000)
    cont = g.choice(['avg', 'angle', 'delay'])
    g.note(N=N, taps=taps, f_trans=ft, hf_cont=cont)
    seen = []
    real_irfft = np.fft.irfft
    from unittest import mock
    with mock.patch.object(np.fft, 'irfft', lambda a, n=None, *r, **k: (seen.append(np.array(a)), real_irfft(a, n, *r, **k))[1]):
        h = decoder.magls_bin(H, N, ft, hf_cont=cont)
    Y = Ymat(N, H.azi, H.zen, 'real')
    HH = np.array([np.fft.rfft(x, taps) for x in (L, R)])
    kc = int(np.argmin(np.abs(np.fft.rfftfreq(taps, 1 / fs) - ft)))
    if not seen or seen[-1].shape != (2, n, HH.shape[-1]):
        g.skip()
    out = Y @ seen[-1]
    g.close(np.abs(out), np.abs(HH), 'magnitude of the fitted target is the magnitude of the responses', 1e-6,
            scale=np.abs(HH).max())
    g.close(out[..., :kc], HH[..., :kc], 'responses unchanged below the transition', 1e-6, scale=np.abs(HH).max())


# ------------------------------------------------------------------ C25
@contract('C25', cases=120, thorough=1500, fns=['sig.HRIRs.nearest_idx', 'sig.HRIRs.nearest_hrirs', 'sig.HRIRs'])
def nearest_hrir(g):
    n, taps = g.int(1, 60), g.int(1, 20)
    k = g.int(0, 2)
    if k == 0:
        azi, zen = g.dirs(n)
    elif k == 1:
        azi, zen, _ = grids.gauss(g.int(1, 5))
        n = len(azi)
    else:
        azi, zen = utils.vec2dir(g.unit(n)).T
        azi = azi + g.choice([0, 2 * np.pi, -2 * np.pi], )
    fs = g.choice([44100, 48000])
    L, R = g.normal(n, taps), g.normal(n, taps)
    H = sig.HRIRs(L, R, azi if g.bool() else azi.tolist(), zen, fs)
    g.check(len(H) == taps == H.num_samples and H.num_grid_points == n and H.fs == fs, 'sizes')
    m = g.int(1, 12)
    qa, qz = g.dirs(m)
    for i in range(m):
        r = g.rng.random()
        j = g.int(0, n - 1)
        if r < .3:
            qa[i], qz[i] = azi[j], zen[j]
        elif r < .5:
            qa[i], qz[i] = azi[j] + g.real(-.05, .05), zen[j] + g.real(-.05, .05)
        elif r < .6:
            qa[i] += 2 * np.pi
        elif r < .7:                    # opposite side / beyond the pole
            qz[i] = -qz[i] if g.bool() else 2 * np.pi - qz[i]
    g.note(azi=azi, zen=zen, query_azi=qa, query_zen=qz)
    idx = np.atleast_1d(H.nearest_idx(qa, qz))
    g.check(idx.shape == (m,), f'one index per query, got {idx.shape}')
    for i in range(m):
        c, b = nearest(H, qa[i], qz[i])
        g.check(idx[i] in c, f'query {i} ({qa[i]:.4f}, {qz[i]:.4f}): entry {idx[i]} is farther away than {b}')
        one = H.nearest_idx(float(qa[i]), float(qz[i]))
        g.check(np.ndim(one) == 0, 'a single query gives a scalar index')
        g.check(int(one) == int(idx[i]) or int(one) in c, 'one query at a time gives the same')
        l, r = H.nearest_hrirs(float(qa[i]), float(qz[i]))
        g.check(l.shape == (taps,) and r.shape == (taps,), 'pair of responses')
        g.check(any(np.array_equal(l, L[q]) and np.array_equal(r, R[q]) for q in c), 'left and right stored for exactly that entry')
    if m > 1:
        l, r = H.nearest_hrirs(qa, qz)
        g.same(l, L[idx], 'many queries, left')
        g.same(r, R[idx], 'many queries, right')
    j = g.int(0, n - 1)
    l, r = H[j]
    g.same(l, L[j], 'entry, left')
    g.same(r, R[j], 'entry, right')


@contract('C25', cases=60, thorough=600, fns=['sig.HRIRs.update_hrirs'])
def updates(g):
    n, taps = g.int(1, 12), g.int(1, 20)
    azi, zen = g.dirs(n)
    H = sig.HRIRs(g.normal(n, taps), g.normal(n, taps), azi, zen, 48000)
    for _ in range(g.int(1, 3)):
        taps = g.int(1, 30)
        L, R = g.normal(n, taps), g.normal(n, taps)
        H.update_hrirs(L, R)
        g.check(len(H) == taps == H.num_samples == H.left.shape[1] == H.right.shape[1], 'length after update')
        g.check(H.num_grid_points == n == len(H.azi) == len(H.zen) and H.fs == 48000, 'count after update')
        g.same(H.left, L, 'left after update')
        g.same(H.right, R, 'right after update')
        g.same(H.azi, azi, 'azimuth kept')
        g.same(H.zen, zen, 'zenith kept')
        if g.bool(.3):
            H.apply_ctf_eq(g.normal(g.int(1, 9)))
            g.check(len(H) == H.num_samples == H.left.shape[1] == H.right.shape[1], 'length after equalisation')
            g.check(H.num_grid_points == n and H.left.shape[0] == n, 'count after equalisation')
    L, R = H.left, H.right
    k = n + g.choice([1, -1])
    g.note(n=n, taps=taps, k=k)
    t = H.num_samples
    if k > 0:
        g.rejects(lambda: H.update_hrirs(g.normal(k, t), g.normal(k, t)), 'update with another number of directions')
        g.rejects(lambda: H.update_hrirs(g.normal(n, t), g.normal(k, t)), 'update with unequal ears')
        g.rejects(lambda: sig.HRIRs(g.normal(k, t), g.normal(k, t), azi, zen, 1), 'more responses than directions')
        g.rejects(lambda: sig.HRIRs(g.normal(n, t), g.normal(k, t), azi, zen, 1), 'unequal ears')
        a, z = g.dirs(k)
        g.rejects(lambda: sig.HRIRs(g.normal(n, t), g.normal(n, t), a, zen, 1), 'azimuth does not match zenith')
        g.rejects(lambda: sig.HRIRs(g.normal(n, t), g.normal(n, t), a, z, 1), 'directions do not match responses')
    g.rejects(lambda: sig.HRIRs(g.normal(n), g.normal(n), azi, zen, 1), 'one-dimensional responses')
    g.check(H.num_samples == H.left.shape[1] and H.left is L and H.right is R, 'a rejected update leaves the object')


@contract('C25', cases=80, thorough=800, fns=['decoder.nearest_loudspeaker'])
def nearest_ls(g):
    p = lay.full(g)
    off = g.choice([None, None, g.rng.uniform(-.1, .1, 3)])
    h = decoder.LoudspeakerSetup(*p.T, listener_position=off)
    q = p - (0 if off is None else off)
    h.a = g.choice([1, 1, 2, 0])
    m = g.int(1, 12)
    s = lay.sources(g, m, q)
    g.note(points=q, src=s, a=h.a)
    G = decoder.nearest_loudspeaker(s if m > 1 or g.bool() else s[0], h)
    g.check(G.shape == (m, len(q)), 'gain per source and loudspeaker')
    u = q / np.linalg.norm(q, axis=1)[:, None]
    for i in range(m):
        k = np.flatnonzero(G[i])
        g.check(len(k) == 1, f'one active loudspeaker, got {k}')
        d = u @ (s[i] / np.linalg.norm(s[i]))
        g.check(d[k[0]] >= d.max() - 1e-9, f'source {i}: loudspeaker {k[0]} is farther away than {np.argmax(d)}')
        g.close(G[i, k[0]], np.linalg.norm(q[k[0]]) ** h.a, 'distance compensated gain', 1e-9)
        if np.sort(d)[-1] - np.sort(d)[-2] > 1e-9:
            g.same(decoder.nearest_loudspeaker(s[i], h)[0], G[i], 'one query at a time gives the same', 1e-12)
