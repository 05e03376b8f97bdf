"""C01: coordinate, angle and level conversions."""
from ..vc import obligation
from ..sym import S, lift
from .. import terms as T
from ..terms import P_, ONE
import numpy as np
from spaudiopy import utils


def point(v):
    x, y, z = v.reals('x y z')
    v.nonzero(x * x + y * y)
    v.nonzero(x * x + y * y + z * z)
    return x, y, z


@obligation('C01', 'cart2sph_sph2cart')
def _(v):
    """sph2cart(cart2sph(p)) = p for every point off the polar axis, radius = Euclidean norm"""
    x, y, z = point(v)
    azi, zen, r = v.call(utils.cart2sph, x, y, z)
    v.eq(r, v.call(np.sqrt, x * x + y * y + z * z), 'radius')
    out = v.call(utils.sph2cart, azi, zen, r)
    v.eq(list(out), [x, y, z], 'point')


@obligation('C01', 'cart2sph_polar_axis')
def _(v):
    """the same on the polar axis (x = y = 0), z of either sign"""
    z = v.real('z')
    v.nonzero(z)
    azi, zen, r = v.call(utils.cart2sph, 0, 0, z)
    out = v.call(utils.sph2cart, azi, zen, r)
    v.eq(list(out), [0, 0, z], 'point')


@obligation('C01', 'cart2sph_positive_azi')
def _(v):
    """azimuth on request in [0, 2 pi), describing the same point"""
    x, y, z = point(v)
    azi, zen, r = v.call(utils.cart2sph, x, y, z, positive_azi=True)
    v.true(azi >= 0, 'azi >= 0')
    v.true(azi < 2 * S(P_(T.PI)), 'azi < 2 pi')
    out = v.call(utils.sph2cart, azi, zen, r)
    v.eq(list(out), [x, y, z], 'point')


@obligation('C01', 'cart2sph_ranges')
def _(v):
    """zenith in [0, pi], azimuth in [-pi, pi]"""
    x, y, z = point(v)
    azi, zen, r = v.call(utils.cart2sph, x, y, z)
    pi = S(P_(T.PI))
    v.true((zen >= 0) & (zen <= pi), 'zenith')
    v.true((azi >= -pi) & (azi <= pi), 'azimuth')
    v.true(r >= 0, 'radius')


@obligation('C01', 'cart2sph_steady')
def _(v):
    """the origin-safe variant: zenith pi/2 at the origin, unchanged for points of radius >= 1e-14"""
    pi = S(P_(T.PI))
    azi, zen, r = v.call(utils.cart2sph, 0, 0, 0, steady_zen=True)
    v.eq(zen, pi / 2, 'origin')
    v.eq(r, 0, 'origin radius')
    x, y, z = point(v)
    n = v.call(np.sqrt, x * x + y * y + z * z)
    v.assume(n >= 10e-15)
    a = v.call(utils.cart2sph, x, y, z, steady_zen=True)
    b = v.call(utils.cart2sph, x, y, z)
    v.eq(list(a), list(b), 'steady')


@obligation('C01', 'cart2dir_dir2cart')
def _(v):
    """dir2cart(cart2dir(p)) |p| = p; cart2dir agrees with cart2sph"""
    x, y, z = point(v)
    azi, zen = v.call(utils.cart2dir, x, y, z)
    a, b, r = v.call(utils.cart2sph, x, y, z)
    v.eq([azi, zen], [a, b], 'same direction')
    out = v.call(utils.dir2cart, azi, zen)
    v.eq([r * o for o in out], [x, y, z], 'unit vector')


@obligation('C01', 'vec2dir')
def _(v):
    """vec2dir of any stack of vectors: row by row cart2dir"""
    n, m = v.int('n', 1), v.int('m', 1)
    for shape in ((3,), (n, 3), (n, m, 3)):
        vec = v.array('vec', shape)
        d = v.call(utils.vec2dir, vec)
        v.same_shape(d, shape[:-1] + (2,), 'shape')
        i = tuple(v.index('i', 0, s) for s in shape[:-1])
        for s_ in [v.at(vec, *i, 0) * v.at(vec, *i, 0) + v.at(vec, *i, 1) * v.at(vec, *i, 1)]:
            v.nonzero(s_)
        a, z = v.call(utils.cart2dir, *[v.at(vec, *i, c) for c in range(3)])
        v.eq(v.at(d, *i, 0), a, 'azi')
        v.eq(v.at(d, *i, 1), z, 'zen')
    v.frame()


@obligation('C01', 'sph2cart_is_dir2cart')
def _(v):
    """zenith, elevation and vector variants describe the same direction"""
    azi, zen, r = v.reals('azi zen r')
    a = v.call(utils.sph2cart, azi, zen, r)
    b = v.call(utils.dir2cart, azi, zen)
    c = v.call(utils.matlab_sph2cart, azi, S(P_(T.PI)) / 2 - zen, r)
    v.eq(list(a), [r * x for x in b], 'dir2cart')
    v.eq(list(a), list(c), 'elevation')
    v.eq(a[0] * a[0] + a[1] * a[1] + a[2] * a[2], r * r, 'norm')
    d = v.call(utils.sph2cart, azi, zen)
    v.eq(list(d), list(b), 'default radius')


@obligation('C01', 'elementwise')
def _(v):
    """array conversions treat every element alone, for every number of points"""
    n = v.int('n', 1)
    x, y, z = [v.array(c, (n,)) for c in 'xyz']
    i = v.index('i', 0, n)
    xi, yi, zi = [v.at(c, i) for c in (x, y, z)]
    v.nonzero(xi * xi + yi * yi)
    v.nonzero(xi * xi + yi * yi + zi * zi)
    for k in (dict(), dict(positive_azi=True), dict(steady_zen=True)):
        A = v.call(utils.cart2sph, x, y, z, **k)
        B = v.call(utils.cart2sph, xi, yi, zi, **k)
        for a, b in zip(A, B):
            v.same_shape(a, (n,), 'shape')
            v.eq(v.at(a, i), b, f'cart2sph {k}')
    for f in (utils.sph2cart, utils.matlab_sph2cart):
        for a, b in zip(v.call(f, x, y, z), v.call(f, xi, yi, zi)):
            v.same_shape(a, (n,), 'shape')
            v.eq(v.at(a, i), b, f.__name__)
    for a, b in zip(v.call(utils.dir2cart, x, y), v.call(utils.dir2cart, xi, yi)):
        v.eq(v.at(a, i), b, 'dir2cart')
    for f in (utils.deg2rad, utils.rad2deg, utils.db, utils.from_db):
        v.eq(v.at(v.call(f, x), i), v.call(f, xi), f.__name__)
    v.frame()


@obligation('C01', 'degrees')
def _(v):
    """deg2rad/rad2deg inverse modulo a turn, results inside one turn"""
    x = v.real('x')
    pi = S(P_(T.PI))
    r = v.call(utils.deg2rad, x)
    v.true(r >= 0, 'r >= 0')
    v.true(r < 2 * pi, 'r < 2 pi')
    d = v.call(utils.rad2deg, x)
    v.true((d >= 0), 'd >= 0')
    v.true(d < 360, 'd < 360')
    v.eq(v.call(utils.rad2deg, r), x % 360, 'rad2deg(deg2rad)')
    v.eq(v.call(utils.deg2rad, d), x % (2 * pi), 'deg2rad(rad2deg)')
    v.assume(x >= 0)
    v.assume(x < 360)
    v.eq(v.call(utils.rad2deg, r), x, 'identity on one turn')


@obligation('C01', 'decibel')
def _(v):
    """db and from_db are mutually inverse for amplitude and power"""
    x = v.real('x', pos=True)
    y = v.real('y')
    for k in (dict(), dict(power=True)):
        v.eq(v.call(utils.from_db, v.call(utils.db, x, **k), **k), x, f'from_db(db) {k}')
        v.eq(v.call(utils.db, v.call(utils.from_db, y, **k), **k), y, f'db(from_db) {k}')
        v.eq(v.call(utils.db, -x, **k), v.call(utils.db, x, **k), f'sign {k}')
    v.eq(v.call(utils.from_db, y), v.call(np.power, 10, y / 20), 'amplitude law')
    v.eq(v.call(utils.from_db, y, power=True), v.call(np.power, 10, y / 10), 'power law')
