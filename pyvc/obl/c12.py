"""C12: panning results are a function of the current layout and of the arguments."""
import copy
import numpy as np
from types import SimpleNamespace
from ..vc import obligation
from ..sym import S, Arr, lift
from .. import sym as Y
from .. import npf
from .. import terms as T
from ..terms import P_, ONE, ZERO
from spaudiopy import decoder, sph, utils, grids
from .c11 import small

HULL = 'scipy.spatial.ConvexHull is outside the verifier: the layout is any object with points, distances, exponent and triangles'
FIELDS = 'vertices simplices centroids face_areas face_normals vertex_normals barycenter listener_position nsimplex ls_gains x y z'.split()


def fresh(v):
    """a layout; every call gives another object with the same values"""
    L, M, F = v.int('L', 3), v.int('M', 1), v.int('F', 1)
    h = object.__new__(decoder.LoudspeakerSetup)
    h.points = v.array('p', (L, 3))
    h.npoints = L
    h.d = v.array('d', (L,), nn=True)
    h.a = 1
    h.valid_simplices = v.array('tri', (M, 3), 'I', nn=True)
    h._encloses_listener = v.array('enc', (F, 3), 'I', nn=True)
    h.centroids = v.array('cent', (F, 3))
    h.ambisonics_hull = []
    h.kernel_hull = []
    h.characteristic_order = None
    return h


def sources(v):
    return v.array('src', (v.int('Q', 1), 3)), v.array('other', (v.int('Q2', 1), 3))


def pure_vbap(v):
    """contract of vbap: its result is determined by points, distances, exponent and triangles used, sources and norm"""
    def outs(I, src, hull, norm=2, valid_simplices=None, retain_outside=False, jobs_count=1):
        e = hull
        if retain_outside:
            v.structure('retained sources')
        tri = e.valid_simplices if valid_simplices is None else valid_simplices
        src = v.call(np.atleast_2d, src)
        args = [Y.as_arr(x) for x in (src, e.points, e.d, tri, norm, e.a)]
        return args, lambda: npf.opaque('vbap', (args[0].shape_[0], lift(e.npoints)), 'R')
    h = npf.lawful('vbap', outs)
    v.contract(decoder.vbap, lambda I, src, hull, norm=2, valid_simplices=None, retain_outside=False, jobs_count=1:
               h(I, src, hull, norm, valid_simplices, retain_outside))


@obligation('C12', 'repeated', assumptions=[HULL])
def _(v):
    """repeating a call gives the same result; calls with other sources, norm or triangles in between do not matter"""
    small(v)
    a, b = fresh(v), fresh(v)
    src, other = sources(v)
    st = v.state(a)
    t2 = v.array('t2', (v.int('M2', 1), 3), 'I', nn=True)
    first = v.call(decoder.vbap, src, a)
    v.call(decoder.vbap, other, a, norm=1)
    v.call(decoder.vbap, src, a, valid_simplices=t2)
    v.same_state(st)
    v.eq(v.call(decoder.vbap, src, a), first, 'repeated')
    v.eq(v.call(decoder.vbap, src, b), first, 'without history')
    v.frame()


@obligation('C12', 'selection', assumptions=[HULL])
def _(v):
    """after another choice of valid triangles the result is that of a layout having had them from the beginning"""
    small(v)
    a, b = fresh(v), fresh(v)
    src, other = sources(v)
    t2 = v.array('t2', (v.int('M2', 1), 3), 'I', nn=True)
    v.call(decoder.vbap, src, a)
    a.valid_simplices = t2
    b.valid_simplices = t2
    g = v.call(decoder.vbap, src, b)
    v.eq(v.call(decoder.vbap, src, a), g, 'triangles')
    v.eq(v.call(decoder.vbap, src, fresh(v), valid_simplices=t2), g, 'triangles given to the call')
    v.frame()


@obligation('C12', 'moved', assumptions=[HULL])
def _(v):
    """the current distances and exponent count"""
    small(v)
    a, b = fresh(v), fresh(v)
    src, other = sources(v)
    v.call(decoder.vbap, src, a)
    for h in (a, b):
        h.a = 2
        h.d = v.array('d2', (h.npoints,), nn=True)
    v.eq(v.call(decoder.vbap, src, a), v.call(decoder.vbap, src, b), 'distance')
    v.frame()


@obligation('C12', 'energy_panning', assumptions=[HULL])
def _(v):
    """the same for energy-based panning (vbap represented by its contract)"""
    pure_vbap(v)
    a, b = fresh(v), fresh(v)
    src, other = sources(v)
    st = v.state(a)
    t2 = v.array('t2', (v.int('M2', 1), 3), 'I', nn=True)
    first = v.call(decoder.vbip, src, a)
    v.call(decoder.vbip, other, a)
    v.call(decoder.vbip, src, a, norm=1, valid_simplices=t2)
    v.same_state(st)
    v.eq(v.call(decoder.vbip, src, a), first, 'repeated')
    v.eq(v.call(decoder.vbip, src, b), first, 'without history')
    a.valid_simplices = t2
    b.valid_simplices = t2
    v.eq(v.call(decoder.vbip, src, a), v.call(decoder.vbip, src, b), 'triangles')
    v.frame()


def refinement(v):
    """contracts of the functions selecting triangles: any triangles"""
    n = [0]

    def sel(I, hull, *a, **k):
        n[0] += 1
        return v.array(f'sel{n[0]}', (v.int(f'S{n[0]}', 1), 3), 'I', nn=True)
    for f in (decoder.check_normals, decoder.check_aperture, decoder.check_opening, decoder.apply_blacklist):
        v.contract(f, sel)


@obligation('C12', 'pop_triangles', assumptions=[HULL])
def _(v):
    """removing triangles changes nothing but the set of valid triangles, and panning uses the current set; copies are independent"""
    pure_vbap(v)
    refinement(v)
    src, other = sources(v)
    a = fresh(v)
    c = v.call(copy.copy, a)
    g = v.call(decoder.vbip, src, a)
    st = v.state(a)
    v.call(decoder.LoudspeakerSetup.pop_triangles, a, 85, aperture_limit=90, opening_limit=135, blacklist=[0, 1])
    v.same_state(st, ['valid_simplices'])
    b = fresh(v)
    b.valid_simplices = a.valid_simplices
    v.eq(v.call(decoder.vbip, src, a), v.call(decoder.vbip, src, b), 'current triangles')
    v.eq(v.call(decoder.vbip, src, c), g, 'copied setup')
    v.frame()


def order(v):
    N, Tn = v.int('N', 0), v.int('T', 1)
    return N, v.array('F', ((N + 1) ** 2, Tn))


def pure_sh(v):
    def outs(I, n, a, z, sh_type='complex'):
        a, z, n = (Y.as_arr(x) for x in (a, z, n))
        return [n, a, z], lambda: npf.opaque('sh', (a.shape_[0], (n.at(()) + 1).pow(2)), 'R')
    v.contract(sph.sh_matrix, npf.lawful('sh', outs))


@obligation('C12', 'characteristic_order', assumptions=[HULL], timeout=120)
def _(v):
    """asking for the characteristic order changes nothing: later panning and decoding give what they gave before, and the order is the
    same again"""
    pure_vbap(v)
    src, other = sources(v)
    a = fresh(v)
    g = v.call(decoder.vbip, src, a)
    st = v.state(a)
    try:
        n1 = v.call(decoder.LoudspeakerSetup.get_characteristic_order, a)
    except ValueError:
        v.same_state(st)
        v.eq(v.call(decoder.vbip, src, a), g, 'panning after a rejected order')
        return
    v.same_state(st, ['characteristic_order'])
    v.eq(v.call(decoder.vbip, src, a), g, 'panning')
    v.eq(v.call(decoder.LoudspeakerSetup.get_characteristic_order, a), n1, 'order')
    b = fresh(v)
    v.eq(v.call(decoder.LoudspeakerSetup.get_characteristic_order, b), n1, 'order of an equal layout')
    v.frame()


def hulls(v):
    """contracts: building a layout and a hull from coordinates (scipy), loading a spherical design"""
    n = [0]

    def init(I, me, x, y, z, listener_position=None):
        n[0] += 1
        h = fresh(v)
        for k, val in h.__dict__.items():
            me.__dict__[k] = val
        me.points = Y.stack([Y.as_arr(x), Y.as_arr(y), Y.as_arr(z)], 1) if hasattr(Y, 'stack') else v.call(np.stack, [x, y, z], axis=1)
        me.npoints = S(P_(me.points.shape_[0]))
        return None
    v.contract(decoder.LoudspeakerSetup.__init__, init)
    v.contract(decoder.get_hull, lambda I, x, y, z: SimpleNamespace(points=v.call(np.stack, [x, y, z], axis=1), npoints=S(P_(Y.as_arr(x).shape_[0]))))

    def load(I, degree):
        return v.array('design', (v.int('J', 4), 3))
    v.contract(grids.load_n_design, load)


@obligation('C12', 'ambisonics_setup', assumptions=[HULL], timeout=120)
def _(v):
    """preparing a layout for ambisonics changes only what it prepares: panning without the imaginary loudspeakers gives what it gave,
    the order is the one asked for, whatever was set before"""
    pure_vbap(v)
    hulls(v)
    src, other = sources(v)
    a = fresh(v)
    g = v.call(decoder.vbip, src, a)
    st = v.state(a)
    im = v.array('im', (v.int('I', 1), 3))
    AS = decoder.LoudspeakerSetup.ambisonics_setup
    for n, upd in ((v.int('n1', 1), True), (v.int('n2', 1), False), (v.int('n3', 1), True)):
        v.call(AS, a, update_hull=upd, imaginary_ls=im if upd else None, N_kernel=20, characteristic_order=n)
        v.eq(a.characteristic_order, n, 'order asked for')
        v.same_state(st, ['characteristic_order', 'ambisonics_hull', 'kernel_hull'])
        v.eq(v.call(decoder.vbip, src, a), g, 'panning')
        e = a.ambisonics_hull
        L = a.npoints
        v.same_shape(e.points, (L + im.shape[0] if upd else L, 3), 'extended layout')
        l = v.index('l', 0, L)
        for c in range(3):
            v.eq(v.at(e.points, l, c), v.at(a.points, l, c), 'real loudspeakers')
        if upd:
            q = v.index('q', 0, im.shape[0])
            for c in range(3):
                v.eq(v.at(e.points, L + q, c), v.at(im, q, c), 'imaginary loudspeakers')
            v.same_shape(e.imaginary_ls_idx, im.shape[:1], 'indices')
            v.eq(v.at(e.imaginary_ls_idx, q), L + q, 'indices')
        else:
            v.eq(e.imaginary_ls_idx, None, 'indices')
    v.frame()


@obligation('C12', 'all_round', assumptions=[HULL], timeout=120)
def _(v):
    """all-round panning and decoding: repeated, interleaved and on an equal layout without history the results are the same, and no
    layout, kernel or extended layout changes"""
    pure_vbap(v)
    pure_sh(v)
    src, other = sources(v)
    N, F = order(v)
    J = v.int('J', 4)

    def prep():
        h, e = fresh(v), fresh(v)
        e.imaginary_ls_idx = None
        h.ambisonics_hull = e
        h.kernel_hull = SimpleNamespace(points=v.array('kp', (J, 3)), N_kernel=v.int('Nk', 1))
        h.characteristic_order = N
        return h
    a, b = prep(), prep()
    st = v.state(a, a.ambisonics_hull, a.kernel_hull)
    fs = [(decoder.allrap, src), (decoder.allrad, F), (decoder.allrap2, src), (decoder.allrad2, F), (decoder.vbip, src)]
    first = [v.call(f, x, a) for f, x in fs]
    v.same_state(st)
    v.call(decoder.allrap, other, a)
    v.call(decoder.allrap2, other, a)
    v.call(decoder.vbip, other, a, norm=1)
    for (f, x), r in list(zip(fs, first))[::-1]:
        v.eq(v.call(f, x, a), r, 'repeated')
        v.eq(v.call(f, x, b), r, 'without history')
    v.same_state(st)
    v.frame()


@obligation('C12', 'decoders', assumptions=[HULL], timeout=120)
def _(v):
    """sampling, mode-matching and energy-preserving decoding and nearest loudspeakers: the same"""
    pure_sh(v)
    src, other = sources(v)
    N, F = order(v)
    n = v.int('n', 0)
    v.assume(n <= N)
    a, b = fresh(v), fresh(v)
    st = v.state(a)
    fs = [(decoder.sad, (F,), dict(N_sph=n)), (decoder.mad, (F,), dict(N_sph=n)), (decoder.epad, (F,), dict(N_sph=n)),
          (decoder.nearest_loudspeaker, (src,), {})]
    first = [v.call(f, *x, a, **k) for f, x, k in fs]
    v.same_state(st)
    for (f, x, k), r in list(zip(fs, first))[::-1]:
        v.eq(v.call(f, *x, a, **k), r, 'repeated')
        v.eq(v.call(f, *x, b, **k), r, 'without history')
    v.same_state(st)
    v.frame()
