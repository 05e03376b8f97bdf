"""C04-C08, C10: spherical harmonics domain (spaudiopy.sph)"""
import numpy as np
from math import factorial
from vlib.rt import contract
import spaudiopy as spa
from spaudiopy import sph, utils as U, grids

PI = np.pi


def leg(n, m, x, s=None):
    """associated Legendre with Condon-Shortley phase, independent recursion"""
    x = np.asarray(x, float)
    s = np.sqrt(np.maximum(0, 1 - x * x)) if s is None else s
    p = np.ones_like(x)
    for k in range(1, m + 1):
        p = -p * (2 * k - 1) * s
    if n == m:
        return p
    p1 = x * (2 * m + 1) * p
    for k in range(m + 2, n + 1):
        p, p1 = p1, ((2 * k - 1) * x * p1 - (k + m - 1) * p) / (k - m)
    return p1


def Ynm(n, m, azi, zen):
    """complex orthonormal spherical harmonic (oracle)"""
    a = abs(m)
    v = np.sqrt((2 * n + 1) / (4 * PI) * factorial(n - a) / factorial(n + a)) * leg(n, a, np.cos(zen), np.abs(np.sin(zen))) * \
        np.exp(1j * a * np.asarray(azi))
    return v if m >= 0 else (-1) ** a * np.conj(v)


def Ymat(N, azi, zen, kind):
    cols = []
    for n in range(N + 1):
        for m in range(-n, n + 1):
            if kind == 'complex':
                cols.append(Ynm(n, m, azi, zen))
            else:
                y = Ynm(n, abs(m), azi, zen)
                cols.append(y.real if m == 0 else np.sqrt(2) * (-1) ** m * (y.real if m > 0 else y.imag))
    return np.stack(cols, -1)


def _kind(g):
    return g.choice(['real', 'complex'])


@contract('C04', cases=120, fns=['sph.sh_matrix'])
def matrix_contract(g):
    N, Q, kind = g.int(0, 7) if g.bool(.9) else g.int(8, 12), g.int(1, 9), _kind(g)
    azi, zen = g.dirs(Q)
    g.note(N=N, azi=azi, zen=zen, sh_type=kind)
    Y = sph.sh_matrix(N, azi, zen, kind) if kind != 'real' or g.bool() else sph.sh_matrix(N, azi, zen)
    g.check(Y.shape == (Q, (N + 1) ** 2), f'shape {Y.shape}')
    g.check(np.iscomplexobj(Y) == (kind == 'complex'), 'real convention must be real valued')
    R = Ymat(N, azi, zen, kind)
    g.same(Y, R, 'harmonics matrix differs from the definition', 1e-9)
    g.close(np.sum(np.abs(Y) ** 2, 1), np.full(Q, (N + 1) ** 2 / (4 * PI)), 'squared row norm', 1e-9)
    v = np.stack(U.dir2cart(azi, zen), -1)
    i, j = g.int(0, Q - 1), g.int(0, Q - 1)
    for n in range(N + 1):
        sl = slice(n * n, (n + 1) ** 2)
        g.close(Y[i, sl] @ Y[j, sl].conj(), (2 * n + 1) / (4 * PI) * leg(n, 0, np.clip(v[i] @ v[j], -1, 1)),
                'addition theorem', 1e-8)
    Np = g.int(0, N)
    g.same(sph.sh_matrix(Np, azi, zen, kind), Y[:, :(Np + 1) ** 2], 'smaller order is not the left part', 1e-12)
    g.same(sph.sh_matrix(N, azi[i:i + 1], zen[i:i + 1], kind), Y[i:i + 1], 'row depends on other directions', 1e-12)
    p = g.rng.permutation(Q)
    g.same(sph.sh_matrix(N, azi[p], zen[p], kind), Y[p], 'row order', 1e-12)
    if kind == 'complex':
        for n in range(N + 1):
            for m in range(0, n + 1):
                g.close(Y[:, n * n + n - m], (-1) ** m * Y[:, n * n + n + m].conj(), 'column of -m', 1e-9)
    g.same(sph.sh_matrix(N, float(azi[0]), float(zen[0]), kind), Y[:1], 'scalar direction', 1e-12)
    g.same(sph.sh_matrix(N, list(azi), list(zen), kind), Y, 'list directions', 1e-12)
    g.rejects(lambda: sph.sh_matrix(N, azi, zen, 'n3d'), 'unknown convention')


# ---------------------------------------------------------------- C05
def exact_grid(g, N, kind=None):
    """(azi, zen, weights or None): grid integrating products of order-N harmonics exactly"""
    k = kind or g.choice(['t', 'n', 'equal', 'gauss'])
    if k == 't' or k == 'n':
        d = max(2 * N, 1)
        d = min(20, d + g.int(0, 1))
        v = grids.load_t_design(d) if k == 't' else grids.load_n_design(d)
        dd = U.vec2dir(v)
        return dd[:, 0], dd[:, 1], None, 1e-5
    if k == 'equal':
        a, z, w = grids.equal_angle(N)
    else:
        a, z, w = grids.gauss(N)
    return a, z, w, 1e-9


@contract('C05', cases=90, fns=['sph.sht', 'sph.inverse_sht'])
def transform_pair(g):
    N, kind = g.int(0, 5), _kind(g)
    azi, zen, w, tol = exact_grid(g, N)
    S = g.int(1, 4)
    one = g.bool(.2)
    F = g.cnormal((N + 1) ** 2, S) if (kind == 'complex' or g.bool(.2)) else g.normal((N + 1) ** 2, S)
    if one:
        F = F[:, 0]
    g.note(N=N, sh_type=kind, grid_points=len(azi), weights=w is not None, F=F)
    f = sph.inverse_sht(F, azi, zen, kind)
    F2 = F if F.ndim == 2 else F[:, None]
    Y = Ymat(N, azi, zen, kind)
    g.same(f, Y @ F2, 'inverse transform is not the harmonics expansion', 1e-6)
    kw = {} if w is None else dict(weights=w)
    G = sph.sht(f, N, azi, zen, kind, **kw)
    g.same(G, F2, 'sht(inverse_sht(F)) != F', tol)
    g.same(sph.inverse_sht(G, azi, zen, kind), f, 'inverse_sht(sht(f)) != f', tol)
    if w is None and g.bool():
        ww = np.full(len(azi), 4 * PI / len(azi))
        g.same(sph.sht(f, N, azi, zen, kind, weights=ww), G, 'explicit equal weights change the result', 1e-9)
    Ym = sph.sh_matrix(N, azi, zen, kind)
    g.same(sph.sht(f, N, azi, zen, kind, Y_nm=Ym, **kw), G, 'passing the matrix changes sht', 1e-12)
    g.same(sph.inverse_sht(F, azi, zen, kind, N, Ym), f, 'passing the matrix changes inverse_sht', 1e-12)
    # arbitrary functions: linear, columnwise
    h = g.cnormal(len(azi), 3)
    H = sph.sht(h, N, azi, zen, kind, **kw)
    c = g.int(0, 2)
    g.same(sph.sht(h[:, c], N, azi, zen, kind, **kw), H[:, c:c + 1], 'columns are not independent', 1e-10)
    al = g.real()
    g.same(sph.sht(al * h[:, :1] + h[:, 1:2], N, azi, zen, kind, **kw), al * H[:, :1] + H[:, 1:2], 'not linear', 1e-10)
    wq = w if w is not None else np.full(len(azi), 4 * PI / len(azi))
    g.same(H, (Y.conj() * np.asarray(wq)[:, None]).T @ h, 'coefficients are not the quadrature of the function', 1e-6)
    M = g.int(0, N)
    g.same(sph.inverse_sht(F2, azi, zen, kind, N_sph=M), Y[:, :(M + 1) ** 2] @ F2[:(M + 1) ** 2],
           'inverse transform with lower order', 1e-6)


@contract('C05', cases=60, fns=['sph.sht_lstsq'])
def least_squares(g):
    N, kind = g.int(0, 4), _kind(g)
    Q = (N + 1) ** 2 + g.int(0, 12)
    azi, zen = g.rng.uniform(-PI, PI, Q), np.arccos(g.rng.uniform(-1, 1, Q))
    Y = Ymat(N, azi, zen, kind)
    if np.linalg.cond(Y) > 1e4:
        g.skip()
    S = g.int(1, 3)
    F = g.cnormal((N + 1) ** 2, S) if kind == 'complex' else g.normal((N + 1) ** 2, S)
    g.note(N=N, sh_type=kind, Q=Q, F=F)
    f = sph.inverse_sht(F, azi, zen, kind)
    G = sph.sht_lstsq(f, N, azi, zen, kind)
    g.same(G, F, 'least-squares transform does not recover the coefficients', 1e-7)
    g.same(sph.inverse_sht(G, azi, zen, kind), f, 'function not recovered', 1e-7)
    g.same(sph.sht_lstsq(f, N, azi, zen, kind, Y_nm=sph.sh_matrix(N, azi, zen, kind)), G, 'passing the matrix', 1e-12)
    g.same(sph.sht_lstsq(f[:, 0], N, azi, zen, kind), G[:, :1], 'single function', 1e-9)
    h = g.cnormal(Q, 2) if kind == 'complex' else g.normal(Q, 2)
    H = sph.sht_lstsq(h, N, azi, zen, kind)
    g.close(Y.conj().T @ (Y @ H - h), np.zeros(((N + 1) ** 2, 2)), 'residual is not orthogonal to the harmonics', 1e-7)
    g.same(sph.sht_lstsq(h[:, 1], N, azi, zen, kind), H[:, 1:], 'columns are not independent', 1e-9)


@contract('C05', cases=60, fns=['sph.sh_mult'])
def product(g):
    N1, N2, kind = g.int(0, 4), g.int(0, 4), _kind(g)
    cx = kind == 'complex' or g.bool(.4)
    a = g.cnormal((N1 + 1) ** 2) if cx else g.normal((N1 + 1) ** 2)
    b = g.cnormal((N2 + 1) ** 2) if cx and g.bool(.8) else g.normal((N2 + 1) ** 2)
    g.note(a=a, b=b, sh_type=kind)
    c = sph.sh_mult(a, b, kind)
    g.check(np.shape(c) == ((N1 + N2 + 1) ** 2,), f'shape {np.shape(c)}')
    azi, zen = g.dirs(20)
    ya, yb, yc = Ymat(N1, azi, zen, kind), Ymat(N2, azi, zen, kind), Ymat(N1 + N2, azi, zen, kind)
    g.close(yc @ c, (ya @ a) * (yb @ b), 'product coefficients do not give the pointwise product', 2e-5)


# ---------------------------------------------------------------- C06
@contract('C06', cases=120, fns=['sph.sh_rotation_matrix', 'sph.rotate_sh'])
def rotation(g):
    N = g.int(0, 6) if g.bool(.9) else g.int(7, 9)
    ang = [g.choice([g.real(-7, 7), g.real(-PI, PI), 0.0, PI / 2, PI, -PI / 2,
                     10 ** g.real(-6, -1), -10 ** g.real(-6, -1)]) for _ in range(3)]
    if g.bool(.15):
        ang = [a * 10 ** g.real(-6, -2) for a in ang]
    g.note(N=N, yaw_pitch_roll=ang)
    R = sph.sh_rotation_matrix(N, *ang)
    K = (N + 1) ** 2
    g.check(R.shape == (K, K), 'shape')
    g.close(R @ R.T, np.eye(K), 'not orthogonal', 1e-9)
    azi, zen = g.dirs(6)
    v = np.stack(U.dir2cart(azi, zen), -1)
    v2 = v @ U.rotation_euler(*ang).T
    a2, z2 = np.arctan2(v2[:, 1], v2[:, 0]), np.arctan2(np.hypot(v2[:, 0], v2[:, 1]), v2[:, 2])
    g.close(Ymat(N, azi, zen, 'real') @ R.T, Ymat(N, a2, z2, 'real'),
            'rotating the encoding is not encoding the rotated direction', 1e-8)
    B = sph.sh_rotation_matrix(N, *ang, return_as_blocks=True)
    g.check(len(B) == N + 1, 'number of blocks')
    Z = np.zeros((K, K))
    for n in range(N + 1):
        g.check(np.shape(B[n]) == (2 * n + 1, 2 * n + 1), 'block size')
        Z[n * n:(n + 1) ** 2, n * n:(n + 1) ** 2] = B[n]
    g.close(R, Z, 'matrix is not block diagonal with the blocks returned', 1e-12)
    M = g.int(0, N)
    g.same(sph.sh_rotation_matrix(M, *ang), R[:(M + 1) ** 2, :(M + 1) ** 2], 'smaller order is not the leading block', 1e-12)
    F = g.normal(g.choice([1, 2, 3, 4, K, K + 1]), K)
    g.same(sph.rotate_sh(F, *ang), F @ R.T, 'rotate_sh differs from the matrix', 1e-9)
    g.same(np.squeeze(sph.rotate_sh(F[0], *ang)), np.squeeze(R @ F[0]), 'single coefficient set', 1e-9)
    g.rejects(lambda: sph.rotate_sh(g.normal(2, K + 1), *ang), 'invalid coefficient count')


# ---------------------------------------------------------------- C07
@contract('C07', cases=120, fns=['sph.n3d_to_sn3d', 'sph.sn3d_to_n3d', 'sph.repeat_per_order'])
def normalisation(g):
    N, S = g.int(0, 8), g.int(1, 5)
    K = (N + 1) ** 2
    axis = g.choice([0, 1])
    F = g.cnormal(K, S) if g.bool(.3) else g.normal(K, S)
    if axis == 1:
        F = F.T.copy()
    deg = np.concatenate([[n] * (2 * n + 1) for n in range(N + 1)])
    sc = 1 / np.sqrt(2 * deg + 1)
    sc = sc[:, None] if axis == 0 else sc[None, :]
    g.note(F=F, axis=axis)
    A = sph.n3d_to_sn3d(F, axis=axis)
    g.same(A, F * sc, 'N3D to SN3D', 1e-12)
    B = sph.sn3d_to_n3d(F, axis=axis)
    g.same(B, F / sc, 'SN3D to N3D', 1e-12)
    g.same(sph.sn3d_to_n3d(A, axis=axis), F, 'round trip', 1e-12)
    g.same(sph.n3d_to_sn3d(B, axis=axis), F, 'round trip', 1e-12)
    if axis == 0:
        g.same(sph.n3d_to_sn3d(F), A, 'default axis', 1e-14)
        g.same(sph.sn3d_to_n3d(F), B, 'default axis', 1e-14)
    c = g.normal(N + 1)
    g.same(sph.repeat_per_order(c), c[deg], 'repeat_per_order', 1e-15)


@contract('C07', cases=120, fns=['sph.sh_to_b', 'sph.b_to_sh', 'sph.src_to_b', 'sph.src_to_sh'])
def bformat(g):
    S = g.int(1, 6)
    w = g.choice([None, 1 / np.sqrt(2), g.real(.1, 3), 1.0, 2, 10 ** g.real(-5, 4)])
    F = g.normal(4, S)
    if g.bool(.2):
        F = F * 10 ** g.rng.uniform(-3, 3, (4, 1))
    one = g.bool(.2)
    if one:
        F = F[:, 0]
    g.note(F=F, W_weight=w)
    B = sph.sh_to_b(F, w)
    g.check(np.shape(B) == np.shape(F), 'shape')
    g.same(sph.b_to_sh(B, w), F, 'b_to_sh(sh_to_b(F))', 1e-10)
    g.same(sph.sh_to_b(sph.b_to_sh(F, w), w), F, 'sh_to_b(b_to_sh(B))', 1e-10)
    azi, zen = g.dirs(1)
    s = g.normal(S)
    E = sph.src_to_b(s, azi, zen)
    g.same(E, np.outer([1, np.cos(azi[0]) * np.sin(zen[0]), np.sin(azi[0]) * np.sin(zen[0]), np.cos(zen[0])], s),
           'W, X, Y, Z encoding', 1e-12)
    g.same(sph.sh_to_b(sph.src_to_sh(s, azi, zen, 1)), E, 'encoding W,X,Y,Z differs from converting the encoding', 1e-10)
    g.same(E[0], s, 'W does not carry the signal', 1e-12)
    ww = g.real(.2, 2)
    D = sph.sh_to_b(sph.src_to_sh(s, azi, zen, 1), ww)
    g.same(D[0], ww * s, 'W weight', 1e-10)
    g.same(D[1:], E[1:], 'W weight changes other channels', 1e-10)


@contract('C07', cases=80, fns=['sph.src_to_sh'])
def plane_wave(g):
    N, kind, J, S = g.int(0, 6), _kind(g), g.int(1, 4), g.int(1, 6)
    azi, zen = g.dirs(J)
    s = g.normal(J, S)
    if g.bool(.2):
        s = s[:1, :]
        azi, zen, J = azi[:1], zen[:1], 1
    g.note(N=N, azi=azi, zen=zen, sig=s, sh_type=kind)
    E = sph.src_to_sh(s, azi, zen, N, kind)
    g.same(E, Ymat(N, azi, zen, kind).conj().T @ s, 'plane-wave encoding', 1e-10)
    tot = sum(sph.src_to_sh(s[j], azi[j], zen[j], N, kind) for j in range(J))
    g.same(E, tot, 'sources do not superimpose', 1e-10)
    if kind == 'real':
        g.same(sph.src_to_sh(s, azi, zen, N), E, 'default convention', 1e-14)


# ---------------------------------------------------------------- C08
def pattern(w, x):
    return sum(w[n] * (2 * n + 1) / (4 * PI) * leg(n, 0, x) for n in range(len(w)))


@contract('C08', cases=120, fns=['sph.hypercardioid_modal_weights', 'sph.cardioid_modal_weights',
                                 'sph.maxre_modal_weights', 'sph.butterworth_modal_weights', 'sph.unity_gain',
                                 'sph.bandlimited_dirac', 'sph.max_rE_weights'])
def modal(g):
    N = g.int(0, 14)
    k, nc = g.choice([1, 2, 3, 5, 2.5]), g.choice([1, 2, 3, 4.5, N + 1])
    g.note(N=N, k=k, n_c=nc)
    hy, ca = sph.hypercardioid_modal_weights(N), sph.cardioid_modal_weights(N)
    mr, bw = sph.maxre_modal_weights(N), sph.butterworth_modal_weights(N, k, nc)
    for w, nm in ((hy, 'hypercardioid'), (ca, 'cardioid'), (mr, 'max-rE'), (bw, 'Butterworth')):
        g.check(np.shape(w) == (N + 1,), nm + ': shape')
        g.close(pattern(w, 1.0), 1.0, nm + ': look-direction response is not 1', 1e-9)
        g.close(sph.bandlimited_dirac(N, 0, w), [1.0], nm + ': dirac at 0', 1e-9)
    g.close(hy, np.full(N + 1, hy[0]), 'hypercardioid weights are not constant', 1e-12)
    x = g.rng.uniform(-1, 1, 5)
    g.close(pattern(ca, x), ((1 + x) / 2) ** N, 'cardioid pattern', 1e-8)
    raw, rawb = sph.max_rE_weights(N), sph.butterworth_modal_weights(N, k, nc, UNITAMP=False)
    g.same(sph.maxre_modal_weights(N, UNITAMP=False), raw, 'max-rE without unit amplitude', 1e-12)
    g.close(mr * raw[0], raw * mr[0], 'unit amplitude changes the max-rE weight ratios', 1e-10)
    g.close(bw * rawb[0], rawb * bw[0], 'unit amplitude changes the Butterworth weight ratios', 1e-10)
    g.close(raw, [leg(n, 0, np.cos(np.deg2rad(137.9) / (N + 1.51))) for n in range(N + 1)], 'max-rE weights', 1e-9)
    g.close(rawb, 1 / np.sqrt(1 + (np.arange(N + 1) / nc) ** (2 * k)), 'Butterworth weights', 1e-10)
    w = g.rng.uniform(.1, 2, N + 1)
    if g.bool(.5):
        w = g.normal(N + 1)
        while abs(pattern(w, 1.0)) < 1e-2 * np.max(np.abs(w)):
            w = g.normal(N + 1)
    if g.bool(.3):
        w = w * 10 ** g.real(-9, 6)
    w0 = w.copy()
    wi = g.choice([w, list(w)])
    u = sph.unity_gain(wi)
    g.close(pattern(u, 1.0), 1.0, 'unity_gain: look-direction response is not 1', 1e-9)
    g.close(u * w0[0], w0 * u[0], 'unity_gain changes the ratios', 1e-10)
    d = g.rng.uniform(-4, 4, g.int(1, 6))
    g.same(sph.bandlimited_dirac(N, d, w), pattern(w, np.cos(d)), 'band-limited Dirac is not its Legendre sum', 1e-9)
    g.same(sph.bandlimited_dirac(N, d), pattern(np.ones(N + 1), np.cos(d)), 'band-limited Dirac without weights', 1e-9)
    g.close(sph.bandlimited_dirac(N, 0), [(N + 1) ** 2 / (4 * PI)], 'peak', 1e-9)
    g.rejects(lambda: sph.bandlimited_dirac(N, d, np.ones(N + 2)), 'weights of another order')


@contract('C08', cases=90, fns=['parsa.sh_beamformer_from_pattern', 'parsa.sh_beamform'])
def beamformer(g):
    N = g.int(0, 6)
    nm = g.choice(['hypercardioid', 'cardioid', 'maxre', 'custom'])
    w = dict(hypercardioid=sph.hypercardioid_modal_weights, cardioid=sph.cardioid_modal_weights,
             maxre=sph.maxre_modal_weights).get(nm, lambda n: g.normal(n + 1))(N)
    pat = w if nm == 'custom' or g.bool() else {'maxre': 'max_re'}.get(nm, nm)
    J = g.int(1, 4)
    azi, zen = g.dirs(J)
    sa, sz = g.dirs(3)
    g.note(N=N, pattern=pat, azi=azi, zen=zen, src_azi=sa, src_zen=sz)
    W = spa.parsa.sh_beamformer_from_pattern(pat, N, azi, zen)
    g.check(W.shape == (J, (N + 1) ** 2), f'shape {W.shape}')
    enc = sph.src_to_sh(np.eye(3), sa, sz, N)
    out = spa.parsa.sh_beamform(W, enc)
    v, s = np.stack(U.dir2cart(azi, zen), -1), np.stack(U.dir2cart(sa, sz), -1)
    ref = pattern(w, np.clip(v @ s.T, -1, 1))
    g.same(out, ref, 'beamformer response is not the pattern value at the angle', 1e-8)
    sig = g.normal(3, 5)
    g.same(spa.parsa.sh_beamform(W, sph.src_to_sh(sig, sa, sz, N)), ref @ sig, 'beamforming several signals', 1e-8)
    g.close(spa.parsa.sh_beamform(W[0], enc), ref[0], 'single beamformer', 1e-8)


# ---------------------------------------------------------------- C10
@contract('C10', cases=90, fns=['sph.design_sph_filterbank', 'sph.sph_filterbank_reconstruction_factor'])
def filterbank(g):
    N, kind = g.int(0, 4), _kind(g)
    lay = g.choice(['t', 't', 'n', 'exactgrid'])
    deg = min(20, max(1, 2 * N + g.int(0, 2)))
    v = grids.load_n_design(deg) if lay == 'n' else grids.load_t_design(deg)
    v = v @ g.rotation().T
    dd = U.vec2dir(v)
    azi, zen = dd[:, 0], dd[:, 1]
    c = g.rng.uniform(.1, 2, N + 1) * np.where(g.rng.random(N + 1) < .2, -1, 1)
    if g.bool(.4):
        c = g.choice([sph.cardioid_modal_weights, sph.hypercardioid_modal_weights, sph.maxre_modal_weights])(N)
    J, K = len(azi), (N + 1) ** 2
    g.note(N=N, J=J, c_n=c, sh_type=kind)
    A, B = sph.design_sph_filterbank(N, azi, zen, c, 'perfect', kind)
    Y = Ymat(N, azi, zen, kind)
    deg_ = np.concatenate([[n] * (2 * n + 1) for n in range(N + 1)])
    g.same(A, c[deg_] * Y, 'analysis matrix', 1e-10)
    g.check(B.shape == (K, J), 'synthesis shape')
    tol = 3e-5 * max(1, np.max(np.abs(c)) / np.min(np.abs(c)))
    g.close(B @ A, np.eye(K), 'perfect mode does not reconstruct', tol)
    A2, B2 = sph.design_sph_filterbank(N, azi, zen, c, 'energy', kind)
    g.same(A2, A, 'analysis matrix depends on the mode', 1e-12)
    M = B2 @ A2
    be = M[0, 0]
    g.check(abs(np.imag(be)) < 1e-9 * abs(be) and np.real(be) * c[0] > 0, 'energy mode scalar is not positive')
    g.close(M / be, np.eye(K), 'energy mode is not one common scalar', tol)
    A3, B3 = sph.design_sph_filterbank(N, azi, zen, c, 'pinv', kind)
    if np.linalg.cond(A3) < 1e6:
        g.close(B3 @ A3, np.eye(K), 'pinv mode does not reconstruct', 1e-7)
    ba = sph.sph_filterbank_reconstruction_factor(A[0, :], J, mode='amplitude')
    bn = sph.sph_filterbank_reconstruction_factor(A[0, :], J, mode='energy')
    sa, sz = g.dirs(4)
    Ys = Ymat(N, sa, sz, kind)
    resp = A @ Ys.conj().T
    g.close(ba * resp.sum(0), np.ones(4), 'amplitude factor', tol)
    g.close(bn * np.sum(np.abs(resp) ** 2, 0), np.ones(4), 'energy factor', tol)
    g.rejects(lambda: sph.design_sph_filterbank(N, azi, zen, c, 'other', kind), 'unknown mode')
    g.rejects(lambda: sph.sph_filterbank_reconstruction_factor(A[0, :], J, mode='other'), 'unknown mode')


@contract('C10', cases=40, fns=['sph.design_sph_filterbank'])
def filterbank_pinv_any(g):
    N, kind = g.int(0, 3), _kind(g)
    J = (N + 1) ** 2 + g.int(0, 8)
    azi, zen = g.rng.uniform(-PI, PI, J), np.arccos(g.rng.uniform(-1, 1, J))
    c = g.rng.uniform(.2, 2, N + 1)
    A, B = sph.design_sph_filterbank(N, azi, zen, c, 'pinv', kind)
    if np.linalg.cond(A) > 1e5:
        g.skip()
    g.note(N=N, J=J, c_n=c, sh_type=kind)
    g.close(B @ A, np.eye((N + 1) ** 2), 'pinv mode does not reconstruct', 1e-7)
