"""C11-C15: panning, call-history independence, all-round and linear decoders, parallel execution"""
import copy
import time
import threading
import multiprocessing
import numpy as np
from vlib.rt import contract
from rt.c04_08 import Ymat, leg
from rt import layouts as LY
import spaudiopy as spa
from spaudiopy import decoder as dec, sph, utils as U


def in_triangle(tri, s, tol=1e-5):
    """gains (up to scale) of direction s in the triangle, or None"""
    try:
        x = np.linalg.solve(tri.T, s)
    except np.linalg.LinAlgError:
        return None
    return x / np.linalg.norm(x)


def spec_panning(g, gains, s, P, faces, d, norm, what, intensity=False):
    """the contract of one row of panning gains"""
    x = gains / d if not intensity else gains
    margin = []
    for f in faces:
        t = in_triangle(P[f], s)
        margin.append(-np.inf if t is None else t.min())
    margin = np.array(margin) if len(margin) else np.array([-np.inf])
    nz = np.flatnonzero(np.abs(x) > 0)
    if margin.max() > -5e-6:
        g.check(len(nz) > 0, what + ': source inside a valid triangle gets no gains')
        ok = [f for f, m in zip(faces, margin) if m > -5e-5 and set(nz) <= set(f)]
        g.check(len(ok) > 0, what + f': active loudspeakers {nz} are not a valid triangle containing the source')
        g.check(x >= -1e-5 * (0 if intensity else 10), what + ': negative gains')
        g.close(np.linalg.norm(x, ord=norm), 1., what + ': gains are not of unit norm', 1e-9)
        w = x ** 2 if intensity else x
        v = w @ P
        u = s / np.linalg.norm(s)
        g.close(v / np.linalg.norm(v), u, what + ': gains do not point to the source', 1e-3 if intensity else 1e-6)
        if not intensity:
            g.check(v @ u > 0, what + ': gains point away from the source')
    elif margin.max() < -5e-5:
        g.check(len(nz) == 0, what + ': source outside all valid triangles has gains')


def _valid(g, ls):
    """reduce the valid triangles; returns argument for vbap or None (then ls.valid_simplices applies)"""
    m = g.int(0, 4)
    if m == 1:
        ls.pop_triangles(normal_limit=g.real(20, 85), aperture_limit=g.real(60, 120))
    elif m == 2:
        k = g.rng.random(len(ls.simplices)) < .6
        if np.any(k):
            return ls.simplices[k]
    return None


@contract('C11', cases=110, fns=['decoder.vbap', 'decoder.vbip'])
def panning(g):
    P = LY.full(g)
    ls = LY.setup(P)
    ls.a = g.choice([1, 1, 1, 0, 2])
    vs = _valid(g, ls)
    faces = ls.valid_simplices if vs is None else vs
    if len(faces) == 0:
        g.skip()
    n = g.int(1, 14)
    s = LY.sources(g, n, P)
    norm = g.choice([2, 2, 1, 2.0, 3])
    g.note(points=P, sources=s, norm=norm, faces=len(faces))
    G = dec.vbap(s, ls, norm=norm, valid_simplices=vs)
    g.check(G.shape == (n, len(P)), f'shape {G.shape}')
    d = np.linalg.norm(P, axis=1) ** ls.a
    for i in range(n):
        spec_panning(g, G[i], s[i], P, faces, d, norm, f'vbap source {i}')
    i = g.int(0, n - 1)
    g.same(dec.vbap(s[i], ls, norm=norm, valid_simplices=vs)[0], G[i], 'row depends on the other sources', 1e-12)
    q = g.rng.permutation(n)
    g.same(dec.vbap(s[q], ls, norm=norm, valid_simplices=vs), G[q], 'source order', 1e-12)
    g.close(dec.vbap(s * g.real(.2, 5), ls, norm=norm, valid_simplices=vs), G, 'gains depend on the source distance', 1e-9)
    if norm == 2:
        g.same(dec.vbap(s, ls, valid_simplices=vs), G, 'default norm', 1e-12)
    V = dec.vbip(s, ls, norm=norm, valid_simplices=vs)
    A = dec.vbap(s, ls, valid_simplices=vs)
    r = np.sqrt(np.maximum(A, 0))
    nr = np.linalg.norm(r, ord=norm, axis=1)
    r[nr > 0] /= nr[nr > 0][:, None]
    g.same(V, r, 'vbip is not the normalised square root of the vbap gains', 1e-9)
    # source at a loudspeaker
    for k in range(len(P)):
        cone = [f for f in faces if k in f]
        if cone:
            x = dec.vbap(P[k], ls, norm=norm, valid_simplices=vs)[0] / d
            e = np.zeros(len(P))
            e[k] = 1
            interior = any(k not in f and (in_triangle(P[f], P[k]) is not None) and in_triangle(P[f], P[k]).min() > -1e-4 for f in faces)
            if not interior:
                g.close(x, e, 'source at a loudspeaker does not drive only that loudspeaker', 2e-4)


@contract('C11', cases=50, fns=['decoder.vbap', 'decoder.vbip'])
def retained(g):
    P = LY.dome(g)
    ls = LY.setup(P)
    ls.pop_triangles(normal_limit=80, aperture_limit=g.choice([None, 100]))
    im = np.array([[0, 0, -1.]]) if g.bool(.6) else np.array([[.5, 0, -.8], [-.5, 0.1, -.8]])
    if g.bool(.3):
        im = None
    try:
        ls.ambisonics_setup(update_hull=True, imaginary_ls=im, N_kernel=4, characteristic_order=2)
    except (NotImplementedError, RuntimeError):
        g.skip()
    n = g.int(1, 12)
    s = LY.sources(g, n, P)
    g.note(points=P, imaginary=im, sources=s)
    norm = g.choice([2, 1])
    G = dec.vbap(s, ls, norm=norm, retain_outside=True)
    g.check(G.shape == (n, len(P)), f'retained gains have shape {G.shape}')
    ah = ls.ambisonics_hull
    full = dec.vbap(s, ah, norm=norm)
    idx = np.atleast_1d(ah.imaginary_ls_idx)
    keep = [i for i in range(ah.npoints) if i not in set(idx)]
    g.close(ah.points[keep], P, 'real loudspeakers moved', 1e-12)
    g.same(G, full[:, keep], 'retained gains are not the gains on the extended layout', 1e-12)
    for i in range(n):
        spec_panning(g, full[i], s[i], ah.points, ah.valid_simplices, np.linalg.norm(ah.points, axis=1) ** ah.a,
                     norm, f'extended layout source {i}')
    V = dec.vbip(s, ls, norm=norm, retain_outside=True)
    g.check(V.shape == (n, len(P)) and np.all(V >= 0), 'retained energy gains')
    h2 = LY.setup(P)
    g.rejects(lambda: dec.vbap(s, h2, retain_outside=True), 'retention without prepared layout')


# ---------------------------------------------------------------- C12
def _calls(g, ls, P):
    """a random panning / decoding call (as closure over fixed arguments)"""
    n = g.int(1, 5)
    s = LY.sources(g, n, P)
    vs = None
    if g.bool(.4):
        k = g.rng.random(len(ls.simplices)) < .5
        vs = ls.simplices[k].copy() if np.any(k) else None
    norm = g.choice([1, 2])
    F = g.normal(4, 3)
    F9 = g.normal(9, 3)
    fs = [lambda h: dec.vbap(s, h, norm=norm, valid_simplices=vs),
          lambda h: dec.vbip(s, h, norm=norm, valid_simplices=vs),
          lambda h: dec.nearest_loudspeaker(s, h),
          lambda h: dec.sad(F, h, N_sph=1), lambda h: dec.mad(F, h, N_sph=1), lambda h: dec.epad(F, h, N_sph=1),
          lambda h: dec.vbap(s, h, norm=norm)]
    amb = [lambda h: dec.allrap(s, h, N_sph=1), lambda h: dec.allrad(F, h, N_sph=1),
           lambda h: dec.allrap2(s, h, N_sph=1), lambda h: dec.allrad2(F, h, N_sph=1),
           lambda h: dec.vbap(s, h, retain_outside=True)]
    amb += [lambda h: dec.allrap(s, h), lambda h: dec.allrap2(s, h), lambda h: dec.sad(F9, h)]
    return fs, amb


@contract('C12', cases=60, fns=['decoder.vbap', 'decoder.vbip', 'decoder.LoudspeakerSetup.pop_triangles',
                                'decoder.LoudspeakerSetup.ambisonics_setup'])
def history(g):
    P = LY.dome(g) if g.bool(.3) else LY.full(g, unit=True)
    ls = LY.setup(P)
    objs = [(ls, [])]            # object, list of state-changing operations applied
    trace = []

    def fresh(ops, a):
        h = LY.setup(P)
        last = max([i for i, o in enumerate(ops) if o.__name__ == 'prepare'], default=-1)
        for i, o in enumerate(ops):
            if o.__name__ != 'prepare' or i == last:     # a layout prepared again replaces the earlier preparation
                o(h)
        h.a = a
        return h
    results = []
    for step in range(g.int(3, 8)):
        h, ops = g.choice(objs)
        k = g.int(0, 9)
        if k == 0:
            al, nl = g.choice([None, 95, 120]), g.choice([None, 70, 85])
            op = (lambda al, nl: lambda x: x.pop_triangles(normal_limit=nl, aperture_limit=al))(al, nl)
        elif k == 1:
            b = [int(v) for v in h.simplices[g.int(0, len(h.simplices) - 1)]][:g.int(1, 3)]
            op = (lambda b: lambda x: x.pop_triangles(normal_limit=None, blacklist=b))(b)
        elif k == 2:
            def prepare(x, n=g.int(1, 2), q=g.int(3, 5), im=g.choice([[[.1, .05, -1.1]], [[-.2, .05, -1.2], [.1, .3, -1.3]]])):
                x.ambisonics_setup(update_hull=True, imaginary_ls=im, N_kernel=q, characteristic_order=n)
            op = prepare
        elif k == 3:
            c = copy.copy(h) if g.bool() else copy.deepcopy(h)
            objs.append((c, list(ops)))
            trace.append('copy')
            continue
        else:
            op = None
        if k in (4, 5):
            try:
                h.get_characteristic_order()      # a query
            except (ValueError, OverflowError):
                pass
            trace.append('query')
        if op is not None:
            if k != 2 and len(h.valid_simplices) < 4:
                continue
            trial = fresh(ops, 1)
            op(trial)
            if len(trial.valid_simplices) == 0:
                continue
            op(h)
            ops.append(op)
            trace.append(f'op{k}')
            continue
        fs, amb = _calls(g, h, P)
        c = g.choice(amb) if (h.ambisonics_hull and g.bool()) else g.choice(fs)
        if len(h.valid_simplices) == 0:
            continue
        trace.append('call')
        g.log = g.log[:0]
        g.note(points=P, trace=trace, object=objs.index((h, ops)))
        r1 = np.array(c(h))
        r2 = np.array(c(h))
        ref = np.array(c(fresh(ops, h.a)))
        g.same(r1, ref, 'result depends on the call history', 1e-10)
        g.same(r2, r1, 'repeating the call changes the result', 1e-12)
        results.append((c, h, len(ops), r1))
    for c, h, no, r in results:
        cur = [o for (x, o) in objs if x is h][0]
        if len(cur) == no:
            g.same(np.array(c(h)), r, 'repeating an earlier call changes the result', 1e-10)


@contract('C12', cases=40, fns=['decoder.vbap'])
def selection_then_default(g):
    P = LY.full(g, unit=True)
    ls, ref = LY.setup(P), LY.setup(P)
    s, t = LY.sources(g, g.int(1, 12), P), LY.sources(g, g.int(1, 12), P)
    k = g.rng.random(len(ls.simplices)) < .5
    if not np.any(k):
        g.skip()
    g.note(points=P, sources=s)
    dec.vbap(t, ls, valid_simplices=ls.simplices[k])
    g.same(dec.vbap(s, ls), dec.vbap(s, ref), 'an earlier triangle selection changes the gains', 1e-12)
    jc = g.choice([1, 2]) if g.index < 4 else 1
    a = dec.vbap(s, ls, valid_simplices=ls.simplices[k], jobs_count=jc)
    b = dec.vbap(s, LY.setup(P), valid_simplices=ls.simplices[k])
    g.same(a, b, 'an earlier default call changes the gains of a selection', 1e-12)
    c1, c2 = copy.copy(ls), copy.deepcopy(ls)
    # other subset of the same count
    k2 = g.rng.permutation(k)
    g.same(dec.vbap(s, c1, valid_simplices=ls.simplices[k2]), dec.vbap(s, LY.setup(P), valid_simplices=ls.simplices[k2]),
           'triangle selection of equal count', 1e-12)
    # moving a copied setup
    c2.points = c2.points @ g.rotation().T
    fresh_ = LY.setup(P)
    fresh_.points = c2.points.copy()
    g.same(dec.vbap(s, c2), dec.vbap(s, fresh_), 'copied setup keeps the gains of the old layout', 1e-12)
    g.same(dec.vbap(s, ls), dec.vbap(s, ref), 'working on a copy changes the original', 1e-12)


# ---------------------------------------------------------------- C13
def prepared(g, allreal=False):
    N = g.int(1, 3)
    co = g.choice([N, N, g.int(1, 4)])
    dome = (not allreal) and g.bool(.5)
    if dome:
        P = LY.dome(g)
        ls = LY.setup(P)
        ls.pop_triangles(normal_limit=80)
        im = g.choice([[[0, 0, -1.]], [[.5, .3, -.8], [-.5, 0.1, -.8]], [[0.4, 0, -.9], [-.4, 0.4, -.8], [-.3, -.4, -.8]]])
        ls.ambisonics_setup(update_hull=True, imaginary_ls=np.array(im), N_kernel=g.int(max(N, 3), 6), characteristic_order=co)
    else:
        P = LY.full(g, unit=allreal)
        ls = LY.setup(P)
        ls.ambisonics_setup(update_hull=False, N_kernel=g.int(max(N, 3), 6), characteristic_order=co)
    if g.bool(.3):
        ls.ambisonics_hull.a = g.choice([0, 2])
    return P, ls, N, co


@contract('C13', cases=50, fns=['decoder.allrap', 'decoder.allrad'])
def allround(g):
    P, ls, N, co = prepared(g)
    K = (N + 1) ** 2
    n = g.int(1, 4)
    s = LY.sources(g, n, P)
    g.note(points=P, N=N, characteristic_order=co, sources=s, imaginary=ls.ambisonics_hull.imaginary_ls_idx)
    G = dec.allrap(s, ls, N_sph=N)
    g.check(G.shape == (n, len(P)), f'allrap: one column per real loudspeaker expected, shape {G.shape}')
    azi, zen, _ = U.cart2sph(*s.T)
    E = Ymat(N, azi, zen, 'real').T
    D = dec.allrad(E, ls, N_sph=N)
    g.check(D.shape == (len(P), n), f'allrad: one row per real loudspeaker expected, shape {D.shape}')
    g.close(D, G.T, 'decoding an encoded source differs from panning it', 1e-8)
    # spec: kernel panning
    k = np.asarray(ls.kernel_hull.points)
    ah = ls.ambisonics_hull
    gk = dec.vbap(k, ah)
    keep = np.arange(len(P))
    cosang = (s / np.linalg.norm(s, axis=1)[:, None]) @ (k / np.linalg.norm(k, axis=1)[:, None]).T
    a = sph.max_rE_weights(N)
    a = a / np.sum((2 * np.arange(N + 1) + 1) / (4 * np.pi) * a)
    B = sum(a[i] * (2 * i + 1) / (4 * np.pi) * leg(i, 0, cosang) for i in range(N + 1))
    g.close(G, 4 * np.pi / len(k) * B @ gk[:, keep], 'all-round panning is not the panned virtual layout', 1e-8)
    F, F2 = g.normal(K, 3), g.normal(K, 3)
    al = g.real()
    A = dec.allrad(F, ls, N_sph=N)
    g.close(dec.allrad(al * F + F2, ls, N_sph=N), al * A + dec.allrad(F2, ls, N_sph=N), 'allrad is not linear', 1e-9)
    g.same(dec.allrad(F[:, 1:2], ls, N_sph=N), A[:, 1:2], 'samples are not treated alone', 1e-10)
    g.same(dec.allrap(s[:1], ls, N_sph=N), G[:1], 'allrap rows are not independent', 1e-10)
    g.rejects(lambda: dec.allrad(g.normal((N + 2) ** 2, 2), ls, N_sph=N), 'coefficients of another order')
    if co == N:
        g.same(dec.allrad(F, ls), A, 'default order', 1e-12)
        g.same(dec.allrap(s, ls), G, 'default order', 1e-12)
    raw = LY.setup(P)
    g.rejects(lambda: dec.allrad(F, raw, N_sph=N), 'unprepared layout')
    g.rejects(lambda: dec.allrap(s, raw, N_sph=N), 'unprepared layout')


@contract('C13', cases=50, fns=['decoder.allrap2', 'decoder.allrad2'])
def allround2(g):
    real = g.bool(.6)
    P, ls, N, co = prepared(g, allreal=real)
    ls.ambisonics_hull.a = 1
    K = (N + 1) ** 2
    n = g.int(1, 4)
    s = LY.sources(g, n, P)
    g.note(points=P, N=N, sources=s, imaginary=ls.ambisonics_hull.imaginary_ls_idx)
    G = dec.allrap2(s, ls, N_sph=N)
    g.check(G.shape == (n, len(P)), f'allrap2: one column per real loudspeaker expected, shape {G.shape}')
    g.check(G >= 0, 'negative gains')
    Nk = ls.kernel_hull.N_kernel
    if ls.ambisonics_hull.imaginary_ls_idx is None and np.allclose(np.linalg.norm(P, axis=1), 1) and Nk >= N:
        g.close(np.sum(G ** 2, 1), np.ones(n), 'total energy is not one', 1e-4)
    g.same(dec.allrap2(s[-1:], ls, N_sph=N), G[-1:], 'rows are not independent', 1e-10)
    F, F2 = g.normal(K, 3), g.normal(K, 3)
    A = dec.allrad2(F, ls, N_sph=N)
    g.check(A.shape == (len(P), 3), f'allrad2: one row per real loudspeaker expected, shape {A.shape}')
    al = g.real()
    g.close(dec.allrad2(al * F + F2, ls, N_sph=N), al * A + dec.allrad2(F2, ls, N_sph=N), 'allrad2 is not linear', 1e-9)
    g.same(dec.allrad2(F[:, 2:], ls, N_sph=N), A[:, 2:], 'samples are not treated alone', 1e-10)
    g.rejects(lambda: dec.allrad2(g.normal((N + 2) ** 2, 2), ls, N_sph=N), 'coefficients of another order')
    k = np.asarray(ls.kernel_hull.points)
    azi, zen, _ = U.cart2sph(*k.T)
    g.close(A, 4 * np.pi / len(k) * dec.allrap2(k, ls, N_sph=N).T @ Ymat(N, azi, zen, 'real') @ F,
            'allrad2 is not the kernel panned by allrap2', 1e-7)


# ---------------------------------------------------------------- C14
@contract('C14', cases=110, fns=['decoder.sad', 'decoder.mad', 'decoder.epad'])
def linear_decoders(g):
    big = g.bool(.6)
    P = LY.full(g, nmax=24)
    if big and g.bool(.5):
        P = spa.grids.load_t_design(g.choice([5, 6, 7])) @ g.rotation().T * g.real(.7, 2)
    if g.bool(.4):
        P = P * np.array([1, 1, 10 ** g.real(-1.2, 0)])      # flattened: badly conditioned
    ls = LY.setup(P)
    L = len(P)
    N = g.int(0, 4)
    Nin = N + g.int(0, 2)
    K = (N + 1) ** 2
    S = g.int(1, 4)
    F = g.normal((Nin + 1) ** 2, S)
    azi, zen, _ = U.cart2sph(*P.T)
    Y = Ymat(N, azi, zen, 'real')
    g.note(points=P, N=N, N_in=Nin, F=F)
    sad, mad, epad = dec.sad(F, ls, N_sph=N), dec.mad(F, ls, N_sph=N), dec.epad(F, ls, N_sph=N)
    for o, nm in ((sad, 'sad'), (mad, 'mad'), (epad, 'epad')):
        g.check(o.shape == (L, S), f'{nm}: shape {o.shape}')
        f = getattr(dec, nm)
        F2 = g.normal((Nin + 1) ** 2, S)
        al = g.real()
        g.close(f(al * F + F2, ls, N_sph=N), al * o + f(F2, ls, N_sph=N), nm + ': not linear', 1e-8)
        g.same(f(F[:, -1:], ls, N_sph=N), o[:, -1:], nm + ': samples not treated alone', 1e-9)
        F3 = F.copy()
        F3[K:] = g.normal(*F3[K:].shape)
        g.same(f(F3, ls, N_sph=N), o, nm + ': depends on coefficients above the order', 1e-9)
        g.rejects(lambda: f(F[:K - 1] if K > 1 else F[:0], ls, N_sph=N), nm + ': too few coefficients')
        ls2 = LY.setup(P)
        ls2.characteristic_order = N
        if N > 0:
            g.same(f(F, ls2), o, nm + ': default order', 1e-12)
    ev = Y @ F[:K]
    c = np.sqrt(4 * np.pi / K) * np.sqrt(4 * np.pi / L)
    g.close(sad, c * ev, 'sad is not the scaled function at the loudspeakers', 1e-6)
    if L >= K and np.linalg.cond(Y) < 1e3:
        back = Y.T @ mad
        g.close(back, np.sqrt(L / K) * F[:K], 'mad does not re-encode to the scaled input', 1e-6)
    if L >= K:
        D = dec.epad(np.eye(K), ls, N_sph=N)
        g.close(D.T @ D, np.eye(K) * (D[:, 0] @ D[:, 0]), 'epad is not energy preserving', 1e-8)
        sa, sz = g.dirs(4)
        e = np.sum((D @ Ymat(N, sa, sz, 'real').T) ** 2, 0)
        g.close(e, np.full(4, 1.), 'epad energy is not the same from every direction', 1e-8)


# ---------------------------------------------------------------- C15
def _jobs(g):
    return g.choice([2, 3, 4, 7, None])


@contract('C15', cases=6, thorough=60, budget=60, fns=['decoder.vbap', 'decoder.vbip', 'decoder.allrap',
                                                     'decoder.allrap2', 'decoder.allrad', 'decoder.allrad2'])
def par_panning(g):
    P = LY.full(g)
    ls = LY.setup(P)
    n = g.choice([9, 10, 11, 25, 61])
    s = LY.sources(g, n, P)
    norm = g.choice([1, 2, 3])
    k = g.rng.random(len(ls.simplices)) < .7
    vs = ls.simplices[k] if g.bool(.5) and np.any(k) else None
    j = _jobs(g)
    g.note(points=P, n=n, jobs=j, norm=norm, selection=None if vs is None else len(vs))
    g.same(dec.vbap(s, ls, norm=norm, valid_simplices=vs, jobs_count=j),
           dec.vbap(s, ls, norm=norm, valid_simplices=vs, jobs_count=1), 'vbap: parallel result differs', 1e-12)
    g.same(dec.vbip(s, ls, norm=norm, valid_simplices=vs, jobs_count=j),
           dec.vbip(s, ls, norm=norm, valid_simplices=vs, jobs_count=1), 'vbip: parallel result differs', 1e-12)
    D = LY.dome(g)
    l2 = LY.setup(D)
    l2.pop_triangles(normal_limit=80)
    l2.ambisonics_setup(update_hull=True, imaginary_ls=[[0.2, 0, -1.]], N_kernel=5, characteristic_order=2)
    s2 = LY.sources(g, 12, D)
    g.same(dec.vbap(s2, l2, retain_outside=True, jobs_count=j), dec.vbap(s2, l2, retain_outside=True), 'vbap retained', 1e-12)
    F = g.normal(9, 3)
    for f, x in ((dec.allrap, s2), (dec.allrap2, s2), (dec.allrad, F), (dec.allrad2, F)):
        g.same(f(x, l2, N_sph=2, jobs_count=j), f(x, l2, N_sph=2, jobs_count=1), f.__name__ + ': parallel result differs', 1e-12)


@contract('C15', cases=6, thorough=60, budget=60, fns=['parsa.pseudo_intensity', 'parsa.render_bsdm'])
def par_parsa(g):
    from spaudiopy import parsa, sig
    fs = 48000
    n = g.choice([80, 150, 301])
    b = sig.AmbiBSignal([g.normal(n) for _ in range(4)], fs=fs)
    j = g.choice([2, 3, 5, None])
    w = g.choice([5, 9, 33])
    so = g.choice([1, 3, 5])
    g.note(n=n, jobs=j, win_len=w, smoothing_order=so)
    a = parsa.pseudo_intensity(b, win_len=w, smoothing_order=so, jobs_count=j)
    c = parsa.pseudo_intensity(b, win_len=w, smoothing_order=so, jobs_count=1)
    for x, y in zip(a, c):
        g.same(x, y, 'pseudo_intensity: parallel result differs', 1e-9)
    n = g.choice([60, 200])
    p = g.normal(n)
    azi, zen = g.dirs(n)
    m = g.int(3, 9)
    ga, gz = g.dirs(m)
    h = sig.HRIRs(g.normal(m, 24), g.normal(m, 24), ga, gz, fs)
    a = parsa.render_bsdm(p, azi, zen, h, jobs_count=j)
    c = parsa.render_bsdm(p, azi, zen, h, jobs_count=1)
    for x, y in zip(a, c):
        g.same(x, y, 'render_bsdm: parallel result differs', 1e-9)


@contract('C15', cases=4, thorough=30, budget=60, fns=['process.resample_hrirs', 'io.get_default_hrirs'])
def par_resample(g):
    from spaudiopy import process
    m, T = g.int(3, 12), g.choice([64, 100, 129])
    l, r = g.normal(m, T), g.normal(m, T)
    f1, f2 = g.choice([(44100, 48000), (48000, 44100), (48000, 96000)])
    j = g.choice([2, 3, None])
    g.note(m=m, T=T, fs=(f1, f2), jobs=j)
    a = process.resample_hrirs(l, r, f1, f2, jobs_count=j)
    c = process.resample_hrirs(l, r, f1, f2, jobs_count=1)
    for x, y in zip(a, c):
        g.same(np.asarray(x), np.asarray(y), 'resample_hrirs: parallel result differs', 1e-9)


# adversarial schedules: the workers run as threads of this process, and every accumulation into the shared
# array is split into its read and its write, with a pause in between in which other workers proceed
class _Shared(np.ndarray):
    def __iadd__(self, o):
        t = np.array(self) + np.asarray(o)
        time.sleep(_RNG.random() * 2e-3)
        np.copyto(self.view(np.ndarray), t)
        return self

    def __isub__(self, o):
        return self.__iadd__(-np.asarray(o))


_RNG = np.random.default_rng(0)


class _ThreadPool:
    """executes the work items in random order on several threads"""

    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        if initializer:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def starmap(self, f, args, chunksize=None):
        args = list(args)
        res = [None] * len(args)
        err = []
        order = list(_RNG.permutation(len(args)))

        def work():
            while True:
                try:
                    i = order.pop()
                except IndexError:
                    return
                try:
                    res[i] = f(*args[i])
                except BaseException as e:
                    err.append(e)
        ts = [threading.Thread(target=work) for _ in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            raise err[0]
        return res

    def map(self, f, args, chunksize=None):
        return self.starmap(f, [(a,) for a in args])

    def imap(self, f, args, chunksize=None):
        return iter(self.map(f, args))


@contract('C15', cases=8, thorough=60, budget=60, fns=['parsa.render_bsdm', 'parsa.pseudo_intensity', 'decoder.vbap',
                                                     'process.resample_hrirs'])
def adversarial_schedule(g):
    from spaudiopy import parsa, sig, process
    global _RNG
    _RNG = np.random.default_rng(g.int(0, 10 ** 9))
    fs = 48000
    n, m = g.int(6, 16), g.int(3, 6)
    p = g.normal(n)
    azi, zen = g.dirs(n)
    ga, gz = g.dirs(m)
    h = sig.HRIRs(g.normal(m, 9), g.normal(m, 9), ga, gz, fs)
    b = sig.AmbiBSignal([g.normal(40) for _ in range(4)], fs=fs)
    P = LY.full(g)
    ls = LY.setup(P)
    s = LY.sources(g, 9, P)
    g.note(p=p, azi=azi, zen=zen, hrirs=h.left)
    calls = [('render_bsdm', lambda j: parsa.render_bsdm(p, azi, zen, h, jobs_count=j)),
             ('pseudo_intensity', lambda j: parsa.pseudo_intensity(b, win_len=5, jobs_count=j)),
             ('vbap', lambda j: (dec.vbap(s, ls, jobs_count=j),)),
             ('resample_hrirs', lambda j: process.resample_hrirs(h.left, h.right, 44100, 88200, jobs_count=j)[:2])]
    for nm, f in calls:
        ref = [np.array(x) for x in f(1)]
        pool, fb = multiprocessing.Pool, np.frombuffer
        sa = {md: md.__dict__.get('shared_array') for md in (parsa, dec)}
        try:
            multiprocessing.Pool = _ThreadPool
            np.frombuffer = lambda *a, **k: fb(*a, **k).view(_Shared)
            res = [np.array(x) for x in f(3)]
        finally:
            multiprocessing.Pool, np.frombuffer = pool, fb
            for md, v in sa.items():
                md.shared_array = v
        for x, y in zip(res, ref):
            g.same(x, y, nm + ': the result depends on the interleaving of the workers', 1e-9)
