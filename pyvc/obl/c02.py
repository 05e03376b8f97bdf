"""C02: rotation matrices; C03: angular distances."""
from ..vc import obligation
from ..sym import S, lift
from .. import terms as T
from ..terms import P_, ONE
import numpy as np
from spaudiopy import utils


def mm(v, A, B):
    return v.call(np.matmul, A, B)


def orthogonal(v, R, what):
    v.eq(v.call(np.matmul, R, v.call(np.transpose, R)), np.eye(3), what + ' orthogonal')
    a = [[v.at(R, i, j) for j in range(3)] for i in range(3)]
    det = (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
           + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    v.eq(det, 1, what + ' det')


@obligation('C02', 'euler_proper')
def _(v):
    """yaw/pitch/roll matrix: orthogonal, determinant 1, product of the single-axis matrices z, y, x"""
    y, p, r = v.reals('yaw pitch roll')
    f = utils.rotation_euler
    R = v.call(f, y, p, r)
    orthogonal(v, R, 'R')
    Rz, Ry, Rx = v.call(f, yaw=y), v.call(f, pitch=p), v.call(f, roll=r)
    v.eq(R, mm(v, mm(v, Rz, Ry), Rx), 'product')


@obligation('C02', 'euler_axes')
def _(v):
    """every single-axis matrix fixes its own axis; angle zero is the identity; opposite angles are inverse"""
    a = v.real('a')
    f = utils.rotation_euler
    for name, ax in (('yaw', 2), ('pitch', 1), ('roll', 0)):
        R = v.call(f, **{name: a})
        e = np.eye(3)[ax]
        v.eq(v.call(np.dot, R, e), e, name + ' axis')
        v.eq(v.call(np.dot, e, R), e, name + ' axis, from the left')
        v.eq(mm(v, R, v.call(f, **{name: -a})), np.eye(3), name + ' inverse')
        tr = v.at(R, 0, 0) + v.at(R, 1, 1) + v.at(R, 2, 2)
        v.eq(tr, 1 + 2 * v.call(np.cos, a), name + ' angle')
    v.eq(v.call(f), np.eye(3), 'default')


@obligation('C02', 'rodrigues')
def _(v):
    """axis-angle matrix: proper, fixes the axis of any length, turns perpendicular vectors by the signed angle"""
    k = v.concrete_array('k', (3,))
    th = v.real('theta')
    v.assume(abs(th) > 10e-10)
    K = [v.at(k, i) for i in range(3)]
    n2 = K[0] * K[0] + K[1] * K[1] + K[2] * K[2]
    v.nonzero(n2)
    R = v.call(utils.rotation_rodrigues, k, th)
    orthogonal(v, R, 'R')
    v.eq(v.call(np.dot, R, k), k, 'axis')
    # vector perpendicular to k: u = w x k for arbitrary w; R u = cos u + sin (k/|k|) x u
    w = v.concrete_array('w', (3,))
    u = v.call(np.cross, w, k)
    n = v.call(np.sqrt, n2)
    ku = v.call(np.cross, k, u)
    Ru = v.call(np.dot, R, u)
    for i in range(3):
        v.eq(n * v.at(Ru, i), n * v.call(np.cos, th) * v.at(u, i) + v.call(np.sin, th) * v.at(ku, i), f'turn[{i}]')
    R2 = v.call(utils.rotation_rodrigues, k, -th)
    v.eq(mm(v, R, R2), np.eye(3), 'inverse')
    v.frame()


@obligation('C02', 'rodrigues_small')
def _(v):
    """angles that are zero up to rounding give the identity"""
    k = v.concrete_array('k', (3,))
    v.eq(v.call(utils.rotation_rodrigues, k, 0), np.eye(3), 'zero angle')


@obligation('C02', 'rodrigues_scale')
def _(v):
    """independent of the axis length"""
    k = v.concrete_array('k', (3,))
    s = v.real('s', pos=True)
    th = v.real('theta')
    v.nonzero(sum(v.at(k, i) * v.at(k, i) for i in range(3)))
    v.eq(v.call(utils.rotation_rodrigues, [s * v.at(k, i) for i in range(3)] and v.call(np.multiply, s, k), th),
         v.call(utils.rotation_rodrigues, k, th), 'scaled axis')


@obligation('C02', 'vecvec_target')
def _(v):
    """R f |t| = t |f|, and R is proper, for every pair accepted whose angle exceeds 1e-9 (below, R is the identity)"""
    f, t = v.concrete_array('f', (3,)), v.concrete_array('t', (3,))
    F, G = [v.at(f, i) for i in range(3)], [v.at(t, i) for i in range(3)]
    nf2, nt2 = sum(x * x for x in F), sum(x * x for x in G)
    v.nonzero(nf2)
    v.nonzero(nt2)
    nf, nt = v.call(np.sqrt, nf2), v.call(np.sqrt, nt2)
    v.assume(v.call(np.arccos, v.call(np.dot, v.call(np.divide, f, nf), v.call(np.divide, t, nt))) > 10e-10)
    try:
        R = v.call(utils.rotation_vecvec, f, t)
    except ValueError:
        k = v.call(np.cross, v.call(np.divide, f, nf), v.call(np.divide, t, nt))
        v.true(v.call(np.linalg.norm, k) <= 1e-12, 'rejected pairs are parallel up to 1e-12')
        return
    orthogonal(v, R, 'R')
    Rf = v.call(np.dot, R, f)
    for i in range(3):
        v.eq(nt * v.at(Rf, i), nf * G[i], f'target[{i}]')
    v.frame()


@obligation('C02', 'vecvec_parallel_rejected')
def _(v):
    """parallel pairs are rejected"""
    f = v.concrete_array('f', (3,))
    s = v.real('s')
    v.nonzero(s)
    v.nonzero(sum(v.at(f, i) * v.at(f, i) for i in range(3)))
    v.raises(ValueError, utils.rotation_vecvec, f, v.call(np.multiply, s, f))


@obligation('C03', 'angle_between')
def _(v):
    """angle in [0, pi], symmetric, cosine = normalised inner product (clipped), invariant under scaling and translation"""
    a, b, o = v.concrete_array('a', (3,)), v.concrete_array('b', (3,)), v.concrete_array('o', (3,))
    s = v.real('s', pos=True)
    A, B = [v.at(a, i) for i in range(3)], [v.at(b, i) for i in range(3)]
    na2, nb2 = sum(x * x for x in A), sum(x * x for x in B)
    v.nonzero(na2)
    v.nonzero(nb2)
    f = utils.angle_between
    al = v.call(f, a, b)
    v.true((al >= 0) & (al <= S(P_(T.PI))), 'range')
    v.eq(v.call(f, b, a), al, 'symmetric')
    v.eq(v.call(f, v.call(np.multiply, s, a), b), al, 'scale first')
    v.eq(v.call(f, a, v.call(np.multiply, s, b)), al, 'scale second')
    v.eq(v.call(f, v.call(np.add, a, o), v.call(np.add, b, o), o), al, 'translation')
    na, nb = v.call(np.sqrt, na2), v.call(np.sqrt, nb2)
    u = sum(x * y for x, y in zip(A, B)) / (na * nb)
    v.eq(v.call(np.cos, al), v.call(np.clip, u, -1, 1), 'cosine')
    v.frame()


@obligation('C03', 'angle_between_self')
def _(v):
    """identical and opposite vectors: 0 and pi exactly"""
    a = v.concrete_array('a', (3,))
    v.nonzero(sum(v.at(a, i) * v.at(a, i) for i in range(3)))
    v.eq(v.call(utils.angle_between, a, a), 0, 'same')
    v.eq(v.call(utils.angle_between, a, v.call(np.negative, a)), S(P_(T.PI)), 'opposite')


@obligation('C03', 'angle_between_rounding', assumptions=['inner products and lengths are computed up to rounding: any real values here'])
def _(v):
    """arccos is never evaluated outside its domain, whatever rounding does to inner product and lengths"""
    a, b = v.concrete_array('a', (3,)), v.concrete_array('b', (3,))
    p, n1, n2 = v.real('product'), v.real('n1', pos=True), v.real('n2', pos=True)
    for x in (n1, n2):
        v.nonzero(x)
    lengths = []

    def norm(I, x, ord=None, axis=None, keepdims=False):
        lengths.append(x)
        return (n1, n2)[len(lengths) % 2]

    def arccos(I, x, **k):
        v.true(x >= -1, 'argument of arccos')
        v.true(x <= 1, 'argument of arccos')
        return v.real('angle')
    v.contract(np.dot, lambda I, x, y: p)
    v.contract(np.linalg.norm, norm)
    v.contract(np.arccos, arccos)
    v.call(utils.angle_between, a, b)


@obligation('C03', 'angle_between_rows')
def _(v):
    """a set of vectors: row by row the angle to each, for every number of rows, with and without origin"""
    n = v.int('n', 1)
    a, o, b = v.array('a', (3,)), v.array('o', (3,)), v.array('b', (n, 3))
    i = v.index('i', 0, n)
    for vi in (None, o):
        al = v.call(utils.angle_between, a, b, vi)
        v.same_shape(al, (n,), 'shape')
        v.eq(v.at(al, i), v.call(utils.angle_between, a, b[i], vi), 'row')
    v.frame()


@obligation('C03', 'haversine')
def _(v):
    """great-circle distance: symmetric, r times the angle; cos(d/r) = inner product of the unit vectors"""
    a1, z1, a2, z2 = v.reals('a1 z1 a2 z2')
    r = v.real('r', pos=True)
    d = v.call(utils.haversine, a1, z1, a2, z2, r)
    v.eq(d, v.call(utils.haversine, a2, z2, a1, z1, r), 'symmetric')
    d1 = v.call(utils.haversine, a1, z1, a2, z2)
    v.eq(d, r * d1, 'radius')
    u, w = v.call(utils.dir2cart, a1, z1), v.call(utils.dir2cart, a2, z2)
    v.eq(v.call(np.cos, d1), sum(x * y for x, y in zip(u, w)), 'cosine')
    v.true(d1 >= 0, 'non-negative')


@obligation('C03', 'haversine_rows')
def _(v):
    """element by element for arrays of any length"""
    n = v.int('n', 1)
    A = [v.array(c, (n,)) for c in ('a1', 'z1', 'a2', 'z2')]
    i = v.index('i', 0, n)
    d = v.call(utils.haversine, *A)
    v.eq(v.at(d, i), v.call(utils.haversine, *[v.at(x, i) for x in A]), 'element')
    v.frame()
