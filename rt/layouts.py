import numpy as np
import spaudiopy as spa
from scipy.spatial import ConvexHull

dec = spa.decoder
SIMPLE = {
    'octa': np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1.]]),
    'tetra': np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.]]) / np.sqrt(3),
    'cube': np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)]) / np.sqrt(3),
}


def inside(p, margin=.12):
    try:
        h = ConvexHull(p)
    except Exception:
        return False
    return bool(np.all(h.equations[:, 3] < -margin))


def sphere_points(g, n):
    for _ in range(60):
        p = g.unit(n)
        for _ in range(15):      # spread the points
            d = p[:, None] - p[None]
            r = np.linalg.norm(d, axis=-1) + np.eye(n)
            p = p + .15 * np.sum(d / r[..., None] ** 3, 1) / n
            p /= np.linalg.norm(p, axis=1, keepdims=True)
        if inside(p, .25):
            return p
    return SIMPLE['octa'].copy()


def full(g, nmax=14, unit=False):
    """points of a layout enclosing the listener"""
    k = g.int(0, 4)
    if k == 0:
        p = SIMPLE[g.choice(sorted(SIMPLE))] @ g.rotation().T
    elif k == 1:
        p = spa.grids.load_t_design(g.choice([2, 3, 4])) @ g.rotation().T
    else:
        p = sphere_points(g, g.int(5, nmax))
    p = p.copy()
    if not unit:
        m = g.int(0, 2)
        if m == 1:
            p = p * g.real(.5, 3)
        elif m == 2:
            q = p * g.rng.uniform(.9, 1.4, (len(p), 1))
            if inside(q):
                p = q
    return p


def convex(g, nmax=14):
    for _ in range(30):
        p = full(g, nmax)
        if len(ConvexHull(p).vertices) == len(p) and inside(p):
            return p
    return SIMPLE['octa'].copy()


def dome(g):
    """upper half layout: floor is open"""
    n1, n2 = g.int(5, 8), g.int(3, 5)
    a = np.arange(n1) * 2 * np.pi / n1 + g.real(0, 1)
    b = np.arange(n2) * 2 * np.pi / n2 + g.real(0, 1)
    e1, e2 = g.real(-.05, .02), g.real(.5, .9)
    p = [[np.cos(x) * np.cos(e1), np.sin(x) * np.cos(e1), np.sin(e1)] for x in a]
    p += [[np.cos(x) * np.cos(e2), np.sin(x) * np.cos(e2), np.sin(e2)] for x in b]
    p.append([0, 0, 1.])
    p = np.array(p)
    q = g.rng.permutation(len(p))
    return p[q]


def setup(p):
    return dec.LoudspeakerSetup(p[:, 0].copy(), p[:, 1].copy(), p[:, 2].copy())


def sources(g, n, p=None):
    s = g.unit(n) * 10 ** g.rng.uniform(-1, 1, (n, 1))
    if p is not None:
        for i in range(n):
            r = g.rng.random()
            if r < .2:
                s[i] = p[g.int(0, len(p) - 1)] * g.choice([1., .3, 2.])
            elif r < .3:
                s[i] = p[g.int(0, len(p) - 1)] + p[g.int(0, len(p) - 1)]
                if np.linalg.norm(s[i]) < 1e-3:
                    s[i] = [0, 0, 1]
    return s
