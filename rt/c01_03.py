"""C01 conversions, C02 rotations, C03 angular distances (spaudiopy.utils)"""
import numpy as np
from vlib.rt import contract
from spaudiopy import utils as U

PI = np.pi


def _points(g, shape):
    p = g.normal(*shape, 3) * 10 ** g.real(-3, 3)
    flat = p.reshape(-1, 3)
    for i in range(len(flat)):
        if g.bool(0.25):
            k = g.int(0, 2)
            flat[i, k] = 0.0
            if g.bool(0.4):
                flat[i, (k + 1) % 3] = 0.0
    for i in range(len(flat)):
        if not np.any(flat[i]):
            flat[i] = [0, 0, 1.5]
    return p


def _shape(g):
    return g.choice([(), (1,), (7,), (2, 3), (3, 1, 2), (40,)])


@contract('C01', cases=150, fns=['utils.cart2sph', 'utils.sph2cart'])
def cart_sph_roundtrip(g):
    sh = _shape(g)
    p = _points(g, sh)
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    pos, steady = g.bool(), g.bool()
    g.note(points=p, positive_azi=pos, steady_zen=steady)
    if sh == () and g.bool():
        x, y, z = float(x), float(y), float(z)
    azi, zen, r = U.cart2sph(x, y, z, positive_azi=pos, steady_zen=steady)
    n = np.sqrt(p[..., 0] ** 2 + p[..., 1] ** 2 + p[..., 2] ** 2)
    g.same(r, n, 'radius is not the Euclidean norm', 1e-12)
    g.check(np.shape(azi) == sh and np.shape(zen) == sh, 'shape changed')
    if pos:
        g.check((np.asarray(azi) >= 0) & (np.asarray(azi) < 2 * PI + 1e-15), 'azimuth outside [0, 2pi)')
    else:
        g.check((np.asarray(azi) > -PI - 1e-15) & (np.asarray(azi) <= PI), 'azimuth outside (-pi, pi]')
    g.check((np.asarray(zen) >= 0) & (np.asarray(zen) <= PI), 'zenith outside [0, pi]')
    xx, yy, zz = U.sph2cart(azi, zen, r)
    s = float(np.max(n))
    for a, b, m in ((xx, x, 'x'), (yy, y, 'y'), (zz, z, 'z')):
        g.check(np.shape(a) == sh, 'shape changed')
        g.check(np.abs(a - b) <= 3e-8 * n, f'{m} not recovered: {a} vs {b}')
    # element independence
    if len(sh) and np.size(azi) > 1:
        i = tuple(g.int(0, k - 1) for k in sh)
        a1, z1, r1 = U.cart2sph(x[i], y[i], z[i], positive_azi=pos, steady_zen=steady)
        g.close([a1, z1, r1], [azi[i], zen[i], r[i]], 'element depends on the others', 1e-12)


@contract('C01', cases=100, fns=['utils.cart2dir', 'utils.dir2cart', 'utils.vec2dir', 'utils.matlab_sph2cart'])
def directions(g):
    sh = _shape(g)
    p = _points(g, sh)
    x, y, z = p[..., 0], p[..., 1], p[..., 2]
    g.note(points=p)
    n = np.linalg.norm(p, axis=-1)
    azi, zen = U.cart2dir(x, y, z)
    g.check(np.shape(azi) == sh and np.shape(zen) == sh, 'shape changed')
    g.check((azi > -PI - 1e-15) & (azi <= PI) & (zen >= 0) & (zen <= PI), 'direction outside its range')
    d = np.stack(U.dir2cart(azi, zen), axis=-1)
    g.check(np.abs(d - p / n[..., None]) <= 3e-8, 'unit direction not recovered by dir2cart(cart2dir)')
    v = U.vec2dir(p)
    g.same(v, np.stack((azi, zen), -1), 'vec2dir differs from cart2dir', 1e-13)
    a2, z2, r2 = U.cart2sph(x, y, z)
    g.close(a2, azi, 'cart2sph / cart2dir azimuth differ', 1e-12)
    g.close(z2, zen, 'cart2sph / cart2dir zenith differ', 1e-7)
    m = np.stack(U.matlab_sph2cart(azi, PI / 2 - zen, n), -1)
    g.check(np.abs(m - p) <= 3e-8 * n[..., None], 'elevation variant describes another point')
    rr = g.real(0.1, 9)
    aa, ee = g.normal(5), g.real(-1.5, 1.5) + np.zeros(5)
    g.same(np.stack(U.matlab_sph2cart(aa, ee, rr)), np.stack(U.sph2cart(aa, PI / 2 - ee, rr)),
           'elevation and zenith variants disagree', 1e-12)
    g.same(np.stack(U.matlab_sph2cart(aa, ee)), np.stack(U.dir2cart(aa, PI / 2 - ee)), 'default radius', 1e-12)
    g.same(np.stack(U.sph2cart(aa, ee)), np.stack(U.dir2cart(aa, ee)), 'default radius', 1e-12)


@contract('C01', cases=40, fns=['utils.cart2sph'])
def origin_safe(g):
    n = g.int(1, 6)
    p = g.normal(n, 3) * 10. ** g.int(-12, 8)
    i = g.int(0, n - 1)
    p[i] = 0
    g.note(points=p)
    azi, zen, r = U.cart2sph(p[:, 0], p[:, 1], p[:, 2], steady_zen=True)
    g.check(np.all(np.isfinite(zen)) and np.all(np.isfinite(azi)), 'origin-safe variant not finite')
    g.close(zen[i], PI / 2, 'zenith at the origin', 1e-12)
    g.close(r[i], 0, 'radius at the origin', 1e-15)
    o = [k for k in range(n) if k != i]
    if o:
        a2, z2, r2 = U.cart2sph(p[o, 0], p[o, 1], p[o, 2])
        g.close(zen[o], z2, 'origin-safe variant changes other points', 1e-9)
        g.close(azi[o], a2, 'origin-safe variant changes other points', 1e-9)


@contract('C01', cases=120, fns=['utils.deg2rad', 'utils.rad2deg', 'utils.db', 'utils.from_db'])
def units(g):
    d = g.rng.uniform(-2000, 2000, 6)
    d[0] = g.choice([0, 360, -360, 720, 90, 359.999, -90])
    g.note(deg=d)
    r = U.deg2rad(d)
    g.check((r >= 0) & (r < 2 * PI + 1e-12), 'radians outside [0, 2pi)')
    g.close(np.exp(1j * r), np.exp(1j * d * PI / 180), 'deg2rad', 1e-9)
    b = U.rad2deg(r)
    g.check((b >= 0) & (b <= 360), 'degrees outside [0, 360)')
    g.close(np.exp(1j * b * PI / 180), np.exp(1j * d * PI / 180), 'rad2deg(deg2rad) is not the angle', 1e-9)
    w = g.rng.uniform(-20, 20, 5)
    g.close(np.exp(1j * U.deg2rad(U.rad2deg(w))), np.exp(1j * w), 'deg2rad(rad2deg)', 1e-9)
    g.check((U.rad2deg(w) >= 0) & (U.rad2deg(w) <= 360), 'degrees outside [0, 360)')
    pw = g.bool()
    x = 10 ** g.rng.uniform(-8, 6, 4)
    sg = np.where(g.rng.random(4) < .4, -1, 1)
    g.close(U.from_db(U.db(x * sg, power=pw), power=pw) / x, np.ones(4), 'from_db(db(x)) != |x|', 1e-9)
    l = g.rng.uniform(-140, 140, 4)
    g.close(U.db(U.from_db(l, power=pw), power=pw), l, 'db(from_db(l)) != l', 1e-9)
    g.close(U.from_db(U.db(x)), x, 'default conversion', 1e-9)
    g.close(U.db(x, power=False), 2 * U.db(x, power=True), 'amplitude level is twice the power level', 1e-9)
    g.close(U.db(np.array([10.0, 1.0, 0.1])), [20, 0, -20], 'level of a ratio', 1e-9)
    s = float(x[0])
    g.close(U.from_db(U.db(s)), s, 'scalar', 1e-9)


def _rot(axis, a):
    c, s = np.cos(a), np.sin(a)
    if axis == 'z':
        return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])
    if axis == 'y':
        return np.array([[c, 0, -s], [0, 1, 0], [s, 0, c]])
    return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def _proper(g, R, what, tol=1e-9):
    R = np.asarray(R)
    g.check(R.shape == (3, 3), what + ': not a 3x3 matrix')
    g.close(R @ R.T, np.eye(3), what + ': not orthogonal', tol)
    g.close(np.linalg.det(R), 1.0, what + ': determinant', tol)


def _angle(g):
    return g.choice([g.real(-7, 7), g.real(-PI, PI), 0.0, PI / 2, -PI / 2, PI, -PI, 1e-3, -1e-3, 5e-10, -1e-8, 20.0])


@contract('C02', cases=150, fns=['utils.rotation_euler'])
def euler(g):
    y, p, r = _angle(g), _angle(g), _angle(g)
    g.note(yaw=y, pitch=p, roll=r)
    R = U.rotation_euler(y, p, r)
    _proper(g, R, 'rotation_euler')
    Rz, Ry, Rx = U.rotation_euler(yaw=y), U.rotation_euler(pitch=p), U.rotation_euler(roll=r)
    g.close(R, Rz @ Ry @ Rx, 'yaw/pitch/roll matrix is not the product of the single rotations')
    for M, e, n in ((Rz, 2, 'yaw'), (Ry, 1, 'pitch'), (Rx, 0, 'roll')):
        v = np.eye(3)[e]
        g.close(M @ v, v, n + ' does not fix its axis')
        _proper(g, M, n)
    g.close(np.trace(Rz), 1 + 2 * np.cos(y), 'yaw angle')
    g.close(np.trace(Ry), 1 + 2 * np.cos(p), 'pitch angle')
    g.close(np.trace(Rx), 1 + 2 * np.cos(r), 'roll angle')
    g.close(Rz, _rot('z', y), 'yaw sense')
    g.close(Ry, _rot('y', p), 'pitch sense')
    g.close(Rx, _rot('x', r), 'roll sense')
    g.close(U.rotation_euler(-y, 0, 0), Rz.T, 'opposite yaw is not the inverse')


@contract('C02', cases=150, fns=['utils.rotation_rodrigues'])
def rodrigues(g):
    k = g.normal(3) * 10 ** g.real(-3, 3)
    if g.bool(0.25):
        k = np.eye(3)[g.int(0, 2)] * g.choice([1.0, -1.0, 2.5])
    th = _angle(g)
    kk = list(k) if g.bool(0.2) else k
    g.note(k=k, theta=th)
    R = U.rotation_rodrigues(kk, th)
    _proper(g, R, 'rotation_rodrigues')
    n = k / np.linalg.norm(k)
    g.close(R @ n, n, 'axis is not fixed')
    p = np.cross(n, g.normal(3))
    p /= np.linalg.norm(p)
    q = np.cross(n, p)
    g.close(R @ p, np.cos(th) * p + np.sin(th) * q, 'perpendicular vector is not turned by the signed angle', 2e-9)
    g.close(U.rotation_rodrigues(kk, -th) @ R, np.eye(3), 'opposite angles are not inverse', 5e-9)


@contract('C02', cases=150, fns=['utils.rotation_vecvec'])
def vecvec(g):
    f, t = g.normal(3) * 10 ** g.real(-2, 2), g.normal(3) * 10 ** g.real(-2, 2)
    mode = g.int(0, 5)
    if mode == 0:
        t = f + 1e-4 * g.normal(3) * np.linalg.norm(f)
    elif mode == 1:
        t = -f + 1e-4 * g.normal(3) * np.linalg.norm(f)
    elif mode == 2:
        t = np.cross(f, t)
    elif mode == 3:
        f, t = np.eye(3)[g.int(0, 2)], g.normal(3)
    g.note(f=f, t=t)
    fu, tu = f / np.linalg.norm(f), t / np.linalg.norm(t)
    if np.linalg.norm(np.cross(fu, tu)) > 1e-5:
        R = U.rotation_vecvec(f, t)
        _proper(g, R, 'rotation_vecvec', 1e-8)
        g.close(R @ fu, tu, 'first vector is not mapped onto the second', 1e-6)
    s = g.choice([2.0, 0.5, 1.0, 4.0])
    e = np.eye(3)[g.int(0, 2)] * g.choice([1, -1])
    g.rejects(lambda: U.rotation_vecvec(e, e * s), 'parallel vectors')
    g.rejects(lambda: U.rotation_vecvec(e, -e * s), 'antiparallel vectors')
    w = np.array([3.0, 4.0, 0.0])[g.rng.permutation(3)]
    g.rejects(lambda: U.rotation_vecvec(w, w * s), 'parallel vectors')


def _ang(u, v):
    u = u / np.linalg.norm(u)
    v = v / np.linalg.norm(v)
    return 2 * np.arctan2(np.linalg.norm(u - v), np.linalg.norm(u + v))


@contract('C03', cases=200, fns=['utils.angle_between'])
def central_angle(g):
    a = g.normal(3) * 10 ** g.real(-3, 3)
    b = g.normal(3) * 10 ** g.real(-3, 3)
    m = g.int(0, 7)
    if m == 0:
        b = a * g.real(0.1, 9)
    elif m == 1:
        b = -a * g.real(0.1, 9)
    elif m == 2:
        a, b = np.eye(3)[g.int(0, 2)], -np.eye(3)[g.int(0, 2)]
    g.note(v1=a, v2=b)
    x = U.angle_between(a, b)
    g.check(np.isfinite(x) and 0 <= x <= PI, f'angle {x} outside [0, pi]')
    g.close(np.cos(x), a @ b / np.linalg.norm(a) / np.linalg.norm(b), 'cosine is not the normalised inner product', 1e-9)
    g.close(x, _ang(a, b), 'angle', 1e-6)
    g.close(U.angle_between(b, a), x, 'not symmetric', 1e-7)
    s, t = g.real(0.01, 50), g.real(0.01, 50)
    g.close(U.angle_between(a * s, b * t), x, 'depends on the lengths', 1e-7)
    sc = max(np.linalg.norm(a), np.linalg.norm(b))
    o = g.normal(3) * min(np.linalg.norm(a), np.linalg.norm(b))
    if m > 1:
        tol = 1e-6 * (1 + sc / min(np.linalg.norm(a), np.linalg.norm(b)) * 1e-3)
        g.close(U.angle_between(a + o, b + o, vi=o), x, 'translating points and origin changes the angle', tol)
        g.close(U.angle_between(a + o, b, vi=o), _ang(a, b - o), 'origin not applied to both points', 1e-5)
    g.close(U.angle_between(list(a), b, vi=np.zeros(3)), x, 'origin 0', 1e-12)


@contract('C03', cases=120, fns=['utils.angle_between'])
def angle_sets(g):
    n = g.int(1, 9)
    a, B = g.normal(3), g.normal(n, 3)
    B[g.int(0, n - 1)] = g.choice([a * 2, -a, a])
    o = g.choice([None, g.normal(3)])
    g.note(v1=a, v2=B, vi=o)
    kw = {} if o is None else dict(vi=o)
    x = U.angle_between(a, B, **kw)
    g.check(np.shape(x) == (n,), f'{n} vectors give shape {np.shape(x)}')
    g.check(np.all(np.isfinite(x)) and np.all((x >= 0) & (x <= PI)), 'angle outside [0, pi]')
    for i in range(n):
        g.close(x[i], U.angle_between(a, B[i], **kw), f'element {i} differs from the single evaluation', 1e-7)


@contract('C03', cases=150, fns=['utils.haversine'])
def great_circle(g):
    n = g.int(1, 8)
    a1, z1 = g.dirs(n)
    a2, z2 = g.dirs(n)
    k = g.int(0, n - 1)
    m = g.int(0, 3)
    if m == 0:
        a2[k], z2[k] = a1[k], z1[k]
    elif m == 1:
        a2[k], z2[k] = a1[k] + PI, PI - z1[k]
    r = g.real(0.1, 9)
    g.note(azi1=a1, zen1=z1, azi2=a2, zen2=z2, r=r)
    c = U.haversine(a1, z1, a2, z2, r)
    g.check(np.shape(c) == (n,), 'shape')
    g.check(np.all(np.isfinite(c)), 'great-circle distance not finite')
    v1 = np.stack(U.dir2cart(a1, z1), -1)
    v2 = np.stack(U.dir2cart(a2, z2), -1)
    ref = np.array([_ang(u, v) for u, v in zip(v1, v2)])
    g.close(c / r, ref, 'great-circle distance is not radius times the angle', 1e-6)
    g.close(U.haversine(a2, z2, a1, z1, r), c, 'not symmetric', 1e-7)
    g.close(U.haversine(a1, z1, a2, z2), c / r, 'default radius', 1e-7)
    g.close(U.haversine(a1[0], z1[0], a2[0], z2[0], r), c[0], 'scalar evaluation differs', 1e-7)
