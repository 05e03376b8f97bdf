"""C09 adaptive beamformers and subspace methods (spaudiopy.parsa)"""
import numpy as np
from vlib.rt import contract
from rt.c04_08 import Ymat
import spaudiopy as spa
from spaudiopy import parsa


def cov(g, L, wide=False):
    A = g.normal(L, L + g.int(0, 6))
    S = A @ A.T + g.choice([1e-2, .1, 1.]) * np.eye(L)
    if g.bool(.4):
        k = g.int(0, L - 1)
        B = g.normal(L, k) * g.choice([1, 5, 20])
        S = B @ B.T + g.choice([.01, .3]) * (np.eye(L) + .02 * g.normal(1)[0] ** 2 * np.diag(g.rng.random(L)))
    return (S + S.T) / 2 * 10 ** (g.real(-9, 12) if wide and g.bool(.4) else g.real(-2, 2))


def dirs(g, n):
    """directions that are well separated"""
    return g.dirs(n)


@contract('C09', cases=150, fns=['parsa.sh_mvdr'])
def mvdr(g):
    N = g.int(0, 4)
    L = (N + 1) ** 2
    S = cov(g, L, wide=True)
    n = g.int(1, 5)
    azi, zen = g.dirs(n)
    g.note(N=N, azi=azi, zen=zen, cov=S)
    W = parsa.sh_mvdr(S, azi, zen)
    g.check(np.shape(W) == (n, L), f'shape {np.shape(W)}')
    Y = Ymat(N, azi, zen, 'real')
    g.close(np.sum(W * Y, 1), np.ones(n), 'look-direction response is not 1', 1e-6)
    for i in range(n):
        p = W[i] @ S @ W[i]
        d = g.normal(L)
        d = d - Y[i] * (d @ Y[i]) / (Y[i] @ Y[i])
        if L == 1:
            continue
        for t in (1e-3, .1, 1.):
            v = W[i] + t * d
            g.check(v @ S @ v >= p * (1 - 1e-7), 'another beamformer with the same response has less power')
        g.close(W[i] @ S @ d, 0, 'not the minimum: gradient along the constraint', 1e-6,
                scale=np.linalg.norm(S) * np.linalg.norm(W[i]) * np.linalg.norm(d) + 1e-12)
    i = g.int(0, n - 1)
    g.close(parsa.sh_mvdr(S, azi[i:i + 1], zen[i:i + 1])[0], W[i], 'direction order', 1e-7)


@contract('C09', cases=120, fns=['parsa.sh_lcmv'])
def lcmv(g):
    N = g.int(1, 4)
    L = (N + 1) ** 2
    n = g.int(1, min(L - 1, 4))
    azi, zen = g.dirs(n)
    Y = Ymat(N, azi, zen, 'real')
    if np.linalg.cond(Y) > 1e3:
        g.skip()
    S = cov(g, L, wide=True)
    c = g.rng.uniform(-1, 1, n)
    c[g.int(0, n - 1)] = g.choice([0., 1., .5])
    g.note(N=N, azi=azi, zen=zen, c_gain=c, cov=S)
    w = parsa.sh_lcmv(S, azi, zen, c)
    g.check(np.shape(w) == (L,), 'shape')
    g.close(Y @ w, c, 'constraint not met', 1e-5)
    P = np.eye(L) - np.linalg.pinv(Y) @ Y
    p = w @ S @ w
    for _ in range(3):
        d = P @ g.normal(L)
        v = w + d * 10 ** g.real(-3, 0)
        g.check(v @ S @ v >= p * (1 - 1e-7) - 1e-12 * np.linalg.norm(S), 'another beamformer with the same responses has less power')
        g.close(w @ S @ d, 0, 'not the minimum', 1e-5, scale=np.linalg.norm(S) * np.linalg.norm(w) * np.linalg.norm(d) + 1e-12)
    q = g.rng.permutation(n)
    g.close(parsa.sh_lcmv(S, azi[q], zen[q], c[q]), w, 'depends on the order of the constraints', 1e-6)
    g.rejects(lambda: parsa.sh_lcmv(S, azi, zen, np.r_[c, 1.]), 'gain count differs from the directions')


@contract('C09', cases=150, fns=['parsa.separate_cov', 'parsa.estimate_num_sources'])
def separation(g):
    N = g.int(1, 3)
    L = (N + 1) ** 2
    S = cov(g, L)
    k = g.int(0, L - 1)
    if g.bool(.15):
        k = 0
    g.note(cov=S, num_cut=k)
    P, R = parsa.separate_cov(S, num_cut=k)
    sc = np.linalg.norm(S)
    g.close(P + R, S, 'parts do not add up to the covariance', 1e-9, scale=sc)
    w = np.linalg.eigvalsh((P + P.T) / 2)
    g.close(P, P.T, 'signal part is not symmetric', 1e-9, scale=sc)
    g.check(w >= -1e-9 * sc, 'signal part is not positive semidefinite')
    g.check(np.sum(w > 1e-9 * sc) <= k, 'rank of the signal part exceeds the number of sources')
    e = parsa.estimate_num_sources(S)
    g.check(int(e) == e and 0 <= e <= L - 1, f'estimated number of sources {e}')
    g.check(parsa.estimate_num_sources(None, w=np.linalg.eigvalsh(S)) == e, 'estimate from eigenvalues differs')
    a = g.real(1.01, 30)
    e2 = parsa.estimate_num_sources(S, a=a)
    g.check(int(e2) == e2 and 0 <= e2 <= L - 1, f'estimated number of sources {e2}')
    P2, R2 = parsa.separate_cov(S)
    P3, R3 = parsa.separate_cov(S, num_cut=int(e))
    g.close(P2, P3, 'default number of sources', 1e-9, scale=sc)
    g.close(R2, R3, 'default number of sources', 1e-9, scale=sc)


@contract('C09', cases=60, fns=['parsa.estimate_num_sources'])
def clear_sources(g):
    """k strong equal sources over a flat noise floor: the count lies in range and finds them"""
    N = g.int(1, 3)
    L = (N + 1) ** 2
    k = g.int(1, L - 1)
    q, _ = np.linalg.qr(g.normal(L, L))
    w = np.r_[np.full(L - k, 1.), np.full(k, 1000.)]
    g.note(L=L, k=k)
    e = parsa.estimate_num_sources((q * w) @ q.T)
    g.check(0 <= e <= L - 1, 'out of range')
    g.check(e == k, f'{k} equally strong sources 30 dB over a flat noise floor are counted as {e}')


@contract('C09', cases=120, fns=['parsa.sh_music'])
def music(g):
    N = g.int(0, 4)
    L = (N + 1) ** 2
    S = cov(g, L)
    k = g.int(0, L - 1)
    n = g.int(1, 8)
    azi, zen = g.dirs(n)
    w, v = np.linalg.eigh(S)
    if 0 < k < L and abs(w[L - k] - w[L - k - 1]) < 1e-6 * w[-1]:
        g.skip()
    g.note(N=N, cov=S, num_src=k, azi=azi, zen=zen)
    P = parsa.sh_music(S, k, azi, zen)
    g.check(np.shape(P) == (n,) and np.all(P > 0), 'spectrum not positive')
    Y = Ymat(N, azi, zen, 'real')
    q = v[:, :L - k]
    en = np.sum((Y @ q) ** 2, 1)
    g.close(1 / P, en, 'spectrum is not the reciprocal noise-subspace energy', 1e-7)
    i = g.int(0, n - 1)
    g.close(1 / parsa.sh_music(S, k, azi[i], zen[i])[0], 1 / P[i], 'direction order', 1e-8)
