"""C06: rotation in the harmonics domain.  C07: channel formats."""
from ..vc import obligation
from ..sym import S, lift
from .. import terms as T
from ..terms import P_, ONE
import numpy as np
from spaudiopy import sph, utils

PI4 = lambda: 4 * S(P_(T.PI))


def enc(v, N, azi, zen):
    Y = v.call(sph.sh_matrix, N, azi, zen, 'real')
    return [v.explicit(v.at(Y, 0, c)) for c in range((N + 1) ** 2)]


def rot_case(N):
    def f(v):
        y, p, r = v.reals('yaw pitch roll')
        azi, zen = v.reals('azi zen')
        R = v.call(sph.sh_rotation_matrix, N, y, p, r)
        K = (N + 1) ** 2
        v.same_shape(R, (K, K), 'shape')
        # direction rotated by the Cartesian matrix, written with its own angles a2, z2
        Rc = v.call(utils.rotation_euler, y, p, r)
        d = list(v.call(utils.dir2cart, azi, zen))
        e = v.call(np.dot, Rc, v.call(np.array, d))
        # real harmonics are polynomials of the unit vector: compare as polynomials in (x, y, z)
        Y1 = real_sh_xyz(v, N, d)
        Y2 = real_sh_xyz(v, N, [v.at(e, i) for i in range(3)])
        w = enc(v, N, azi, zen)
        for c in range(K):
            v.eq(w[c], Y1[c], f'harmonics as polynomials {c}')
        for c in range(K):
            v.eq(sum(v.at(R, c, k) * w[k] for k in range(K) if not v.at(R, c, k).p.is_zero()), Y2[c], f'channel {c}')
    f.__doc__ = f'order {N}: rotating the encoding of any direction by any yaw, pitch, roll equals encoding the rotated direction'
    return f


def real_sh_xyz(v, N, d):
    """real harmonics of order <= 3 as polynomials of the unit vector"""
    x, y, z = d
    sq = lambda a: v.call(np.sqrt, a)
    pi = S(P_(T.PI))
    out = [sq(1 / (4 * pi))]
    if N > 0:
        out += [sq(3 / (4 * pi)) * c for c in (y, z, x)]
    if N > 1:
        c = sq(15 / (4 * pi))
        out += [c * x * y, c * y * z, sq(5 / (16 * pi)) * (3 * z * z - 1), c * x * z, c / 2 * (x * x - y * y)]
    if N > 2:
        c1, c2, c3 = sq(35 / (32 * pi)), sq(105 / (4 * pi)), sq(21 / (32 * pi))
        out += [c1 * y * (3 * x * x - y * y), c2 * x * y * z, c3 * y * (5 * z * z - 1), sq(7 / (16 * pi)) * (5 * z * z * z - 3 * z),
                c3 * x * (5 * z * z - 1), c2 / 2 * z * (x * x - y * y), c1 * x * (x * x - 3 * y * y)]
    return out


for n_ in range(4):
    obligation('C06', f'encoding_order_{n_}', bound=f'order {n_}', assumptions=['explicit formula of scipy.special.sph_harm for n <= 3'],
               timeout=200)(rot_case(n_))


@obligation('C06', 'orthogonal_blocks', bound='N <= 2', timeout=120)
def _(v):
    """orthogonal; block diagonal by degree; blocks identical to those returned separately; prefix property"""
    y, p, r = v.reals('yaw pitch roll')
    N = 2
    R = v.call(sph.sh_rotation_matrix, N, y, p, r)
    K = (N + 1) ** 2
    v.eq(v.call(np.matmul, R, v.call(np.transpose, R)), np.eye(K), 'orthogonal')
    B = v.call(sph.sh_rotation_matrix, N, y, p, r, return_as_blocks=True)
    v.eq(len(B), N + 1, 'number of blocks')
    for n in range(N + 1):
        for i in range(K):
            for j in range(n * n, (n + 1) ** 2):
                if n * n <= i < (n + 1) ** 2:
                    v.eq(v.at(R, i, j), v.at(B[n], i - n * n, j - n * n), 'block')
                else:
                    v.eq(v.at(R, i, j), 0, 'off block')
    for M in range(N):
        Q = v.call(sph.sh_rotation_matrix, M, y, p, r)
        for i in range((M + 1) ** 2):
            for j in range((M + 1) ** 2):
                v.eq(v.at(Q, i, j), v.at(R, i, j), f'prefix {M}')


@obligation('C06', 'rotate_sh')
def _(v):
    """rotate_sh applies sh_rotation_matrix (by contract) to every coefficient set; any order and number of sets; one set too"""
    N, L = v.int('N', 0), v.int('L', 1)
    K = (N + 1) ** 2
    y, p, r = v.reals('yaw pitch roll')
    seen = []

    def contract(I, n, a, b, c, sh_type='real', return_as_blocks=False):
        v.eq([a, b, c], [y, p, r], 'angles')
        v.eq(n, N, 'order')
        return v.array('R', (K, K))
    v.contract(sph.sh_rotation_matrix, contract)
    F = v.array('F', (L, K))
    G = v.call(sph.rotate_sh, F, y, p, r)
    v.same_shape(G, (L, K), 'shape')
    l, c = v.index('l', 0, L), v.index('c', 0, K)
    R = v.array('R', (K, K))
    v.eq(v.at(G, l, c), v.sum(0, K, lambda k: v.at(R, c, k) * v.at(F, l, k)), 'application')
    f = v.array('f', (K,))
    g = v.call(sph.rotate_sh, f, y, p, r)
    v.eq(v.at(g, 0, c), v.sum(0, K, lambda k: v.at(R, c, k) * v.at(f, k)), 'single set')
    v.frame()


@obligation('C06', 'types_rejected')
def _(v):
    F = v.array('F', (1, 4))
    v.raises(NotImplementedError, sph.rotate_sh, F, 0, 0, 0, 'complex')
    v.raises(ValueError, sph.sh_rotation_matrix, 1, 0, 0, 0, 'other')


# ---------------------------------------------------------------- C07
@obligation('C07', 'n3d_sn3d')
def _(v):
    """channel of degree n scaled by 1/sqrt(2n+1) resp. sqrt(2n+1) along the selected axis; mutually inverse; any order"""
    N, L = v.int('N', 0), v.int('L', 1)
    K = (N + 1) ** 2
    n = v.index('n', 0, N + 1)
    m = v.index('m', -n, n + 1)
    l = v.index('l', 0, L)
    c = n * n + n + m
    for axis in (0, 1):
        F = v.array('F', (K, L) if axis == 0 else (L, K), sort='C')
        ix = (c, l) if axis == 0 else (l, c)
        a = v.call(sph.n3d_to_sn3d, F, axis)
        b = v.call(sph.sn3d_to_n3d, F, axis)
        f = v.call(np.sqrt, 2 * n + 1)
        v.same_shape(a, F.shape, 'shape')
        v.same_shape(b, F.shape, 'shape')
        v.eq(v.at(a, *ix), v.at(F, *ix) / f, f'n3d_to_sn3d {axis}')
        v.eq(v.at(b, *ix), v.at(F, *ix) * f, f'sn3d_to_n3d {axis}')
        v.eq(v.at(v.call(sph.sn3d_to_n3d, a, axis), *ix), v.at(F, *ix), f'inverse {axis}')
        v.eq(v.at(v.call(sph.n3d_to_sn3d, b, axis), *ix), v.at(F, *ix), f'inverse 2 {axis}')
    v.frame()


@obligation('C07', 'repeat_per_order')
def _(v):
    """entry n^2+n+m of the result is the value of degree n: repeated 2n+1 times; length (N+1)^2"""
    N = v.int('N', 0)
    w = v.array('w', (N + 1,), sort='C')
    r = v.call(sph.repeat_per_order, w)
    v.same_shape(r, ((N + 1) ** 2,), 'length')
    n = v.index('n', 0, N + 1)
    m = v.index('m', -n, n + 1)
    v.eq(v.at(r, n * n + n + m), v.at(w, n), 'value')
    v.frame()


@obligation('C07', 'sh_b_inverse')
def _(v):
    """first order: sh_to_b and b_to_sh are inverse for any non-zero W weight and number of samples; channel meaning"""
    L = v.int('L', 1)
    W = v.real('W')
    v.nonzero(W)
    F = v.array('F', (4, L))
    for k in ((), (W,)):
        B = v.call(sph.sh_to_b, F, *k)
        v.same_shape(B, (4, L), 'shape')
        l = v.index('l', 0, L)
        w = k[0] if k else 1
        s = v.call(np.sqrt, PI4())
        t = s / v.call(np.sqrt, 3)
        for i, (c, g) in enumerate(((0, s * w), (3, t), (1, t), (2, t))):
            v.eq(v.at(B, i, l), g * v.at(F, c, l), f'channel {i}')
        G = v.call(sph.b_to_sh, B, *k)
        for i in range(4):
            v.eq(v.at(G, i, l), v.at(F, i, l), f'inverse {i}')
        H = v.call(sph.sh_to_b, v.call(sph.b_to_sh, F, *k), *k)
        for i in range(4):
            v.eq(v.at(H, i, l), v.at(F, i, l), f'inverse 2 {i}')
    v.frame()


@obligation('C07', 'src_to_b')
def _(v):
    """encoding as W, X, Y, Z = converting the (real) harmonics encoding; W is the signal itself"""
    L = v.int('L', 2)
    sig = v.array('s', (L,))
    azi, zen = v.reals('azi zen')
    B = v.call(sph.src_to_b, sig, azi, zen)
    v.same_shape(B, (4, L), 'shape')
    l = v.index('l', 0, L)
    v.eq(v.at(B, 0, l), v.at(sig, l), 'W')
    F = v.call(sph.src_to_sh, sig, azi, zen, 1)
    C = v.call(sph.sh_to_b, F)
    for i in range(4):
        v.eq(v.at(B, i, l), v.explicit(v.at(C, i, l)), f'channel {i}')
    v.frame()


@obligation('C07', 'src_to_sh')
def _(v):
    """plane wave encoding: outer product of conjugated harmonics and signal; several sources add up"""
    N, L, Q = v.int('N', 0), v.int('L', 2), v.int('Q', 1)
    K = (N + 1) ** 2
    for t in ('real', 'complex'):
        so = 'C' if t == 'complex' else 'R'
        azi, zen = v.reals('azi zen')
        v.contract(sph.sh_matrix, lambda I, n, a, z, sh_type='real': (v.eq(n, N, 'order'), v.array('Y', (a.shape_[0], K), sort=so))[1])
        sig = v.array('s', (L,), sort='C')
        F = v.call(sph.src_to_sh, sig, azi, zen, N, t)
        v.same_shape(F, (K, L), 'shape')
        c, l = v.index('c', 0, K), v.index('l', 0, L)
        Y = v.array('Y', (1, K), sort=so)
        v.eq(v.at(F, c, l), v.call(np.conj, v.at(Y, 0, c)) * v.at(sig, l), 'outer product')
        # several sources
        S2, a2, z2 = v.array('S2', (Q, L), sort='C'), v.array('a2', (Q,)), v.array('z2', (Q,))
        G = v.call(sph.src_to_sh, S2, a2, z2, N, t)
        v.eq(v.at(G, c, l), v.sum(0, Q, lambda q: v.call(np.conj, S(T.app('Y', lift(q), lift(c), sort=so))) * v.at(S2, q, l)), 'sum')
    v.frame()
