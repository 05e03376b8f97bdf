"""C16: frame conditions -- no public function writes to what the caller passed in."""
import os
import copy
import inspect
import tempfile
from unittest import mock
import numpy as np
import spaudiopy as spa
from vlib.rt import contract
from rt import layouts as lay

MODS = ['decoder', 'grids', 'io', 'parsa', 'plot', 'process', 'sig', 'sph', 'utils']


def fingerprint(x, seen=None, depth=0):
    """value of an object graph, comparable with =="""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (bool, int, str, bytes, complex, float)):
        return ('v', type(x).__name__, repr(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('o', x.shape, tuple(fingerprint(v, seen, depth + 1) for v in x.ravel()))
        return ('a', x.shape, str(x.dtype), x.tobytes(), x.flags.writeable)
    if isinstance(x, np.generic):
        return ('g', str(x.dtype), x.tobytes())
    if id(x) in seen:
        return ('ref', seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fingerprint(v, seen, depth + 1) for v in x))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), fingerprint(v, seen, depth + 1)) for k, v in sorted(x.items(), key=repr)))
    if type(x).__name__ == 'ConvexHull':
        return ('hull', tuple(fingerprint(getattr(x, k), seen, depth + 1)
                              for k in ('points', 'simplices', 'vertices', 'equations')),
                getattr(x, 'N_kernel', None))
    if type(x).__module__.startswith('spaudiopy'):
        return ('obj', type(x).__name__, tuple((k, fingerprint(v, seen, depth + 1))
                                               for k, v in sorted(vars(x).items())))
    return ('x', type(x).__name__)


def defaults():
    d = {}
    for m in MODS:
        mod = getattr(spa, m)
        for n, f in vars(mod).items():
            if inspect.isfunction(f) and f.__module__ == mod.__name__:
                d[f'{m}.{n}'] = fingerprint([list(f.__defaults__ or ()), f.__kwdefaults__ or {}])
            if inspect.isclass(f) and f.__module__ == mod.__name__:
                for k, v in vars(f).items():
                    v = getattr(v, '__func__', v)
                    if inspect.isfunction(v):
                        d[f'{m}.{n}.{k}'] = fingerprint([list(v.__defaults__ or ()), v.__kwdefaults__ or {}])
    return d


def dspeaker(g):
    hull = lay.setup(lay.full(g, 10))
    if g.bool():
        hull.pop_triangles(normal_limit=g.choice([85, 60]), aperture_limit=g.choice([None, 100]))
    return hull


def ambi(g, nk=4, upd=True):
    hull = lay.setup(lay.dome(g))
    hull.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150)
    hull.ambisonics_setup(update_hull=upd, imaginary_ls=g.choice([None, np.array([[0, 0, -1.]])]) if upd else None,
                          N_kernel=nk, characteristic_order=g.choice([None, 2]))
    return hull


def hr(g, n=12, taps=40, fs=48000):
    a, z = g.dirs(n)
    return spa.sig.HRIRs(g.normal(n, taps), g.normal(n, taps), a, z, fs)


def arrs(g, *shape):
    """an array, now and then a list or a Fortran ordered / strided view"""
    a = g.normal(*shape)
    k = g.int(0, 5)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.repeat(a, 2, axis=-1)
        return b[..., ::2]
    return a


def lst(g, a):
    return a.tolist() if g.bool(.3) else a


def psd(g, n, k=2):
    A = g.cnormal(n, k)
    return A @ A.conj().T + .1 * np.eye(n)


CALLS = {}


def call(f, heavy=False):
    CALLS[f.__name__] = (f, heavy)
    return f


def add(name, build, heavy=False):
    CALLS[name] = (build, heavy)


u, s, d, p, pr, gr, io, sig, pl = (spa.utils, spa.sph, spa.decoder, spa.parsa, spa.process, spa.grids, spa.io,
                                   spa.sig, spa.plot)

# ---- utils
add('utils.asarray_1d', lambda g: (u.asarray_1d, [lst(g, arrs(g, 5))], {}))
add('utils.deg2rad', lambda g: (u.deg2rad, [400 * g.normal(5)], {}))
add('utils.rad2deg', lambda g: (u.rad2deg, [7 * g.normal(5)], {}))
add('utils.cart2sph', lambda g: (u.cart2sph, [lst(g, g.normal(4)) for _ in range(3)],
                                 dict(positive_azi=g.bool(), steady_zen=g.bool())))
add('utils.sph2cart', lambda g: (u.sph2cart, [lst(g, g.normal(4)) for _ in range(2)] + [np.abs(g.normal(4))], {}))
add('utils.matlab_sph2cart', lambda g: (u.matlab_sph2cart, [arrs(g, 4) for _ in range(3)], {}))
add('utils.cart2dir', lambda g: (u.cart2dir, [arrs(g, 4) for _ in range(3)], {}))
add('utils.dir2cart', lambda g: (u.dir2cart, [arrs(g, 4) for _ in range(2)], {}))
add('utils.vec2dir', lambda g: (u.vec2dir, [g.normal(4, 3)], {}))
add('utils.angle_between', lambda g: (u.angle_between, [lst(g, g.normal(3)), g.normal(g.int(2, 4), 3)],
                                      dict(vi=g.choice([None, np.array([.1, .2, .3])]))))
add('utils.rotation_euler', lambda g: (u.rotation_euler, [g.real(), g.real(), g.real()], {}))
add('utils.rotation_rodrigues', lambda g: (u.rotation_rodrigues, [g.normal(3), g.real(-3, 3)], {}))
add('utils.rotation_vecvec', lambda g: (u.rotation_vecvec, [g.normal(3), g.normal(3)], {}))
add('utils.haversine', lambda g: (u.haversine, [lst(g, arrs(g, 4)) for _ in range(4)], {}))
add('utils.area_triangle', lambda g: (u.area_triangle, [g.normal(3) for _ in range(3)], {}))
add('utils.db', lambda g: (u.db, [arrs(g, 4)], dict(power=g.bool())))
add('utils.from_db', lambda g: (u.from_db, [arrs(g, 4)], dict(power=g.bool())))
add('utils.rms', lambda g: (u.rms, [arrs(g, 3, 4)], dict(axis=g.choice([0, 1, -1]))))
add('utils.stack', lambda g: (u.stack, [g.normal(2, 6), g.normal(2, 6)], {}))
add('utils.test_diff', lambda g: (u.test_diff, [g.normal(4), g.normal(4)], dict(VERBOSE=False)))
add('utils.interleave_channels', lambda g: (u.interleave_channels, [arrs(g, 3, 5), arrs(g, 3, 5)], {}))

# ---- sph


def _dirs(g, n):
    a, z = g.dirs(n)
    return [lst(g, a), lst(g, z)]


add('sph.sh_matrix', lambda g: (s.sh_matrix, [g.int(0, 4)] + _dirs(g, 5), dict(sh_type=g.choice(['real', 'complex']))))


def _sht(g):
    N, Q = g.int(0, 2), 12
    a, z = g.dirs(Q)
    t = g.choice(['real', 'complex'])
    return (s.sht, [arrs(g, *g.choice([(Q,), (Q, 3)])), N, a, z, t],
            dict(weights=g.choice([None, np.abs(g.normal(Q))]),
                 Y_nm=g.choice([None, s.sh_matrix(N, a, z, t)])))


def _lsq(g):
    N, Q = g.int(0, 2), 12
    a, z = g.dirs(Q)
    t = g.choice(['real', 'complex'])
    return (s.sht_lstsq, [arrs(g, Q, 2), N, a, z, t], dict(Y_nm=g.choice([None, s.sh_matrix(N, a, z, t)])))


def _isht(g):
    N, Q = g.int(0, 3), 7
    a, z = g.dirs(Q)
    t = g.choice(['real', 'complex'])
    return (s.inverse_sht, [arrs(g, *g.choice([((N + 1) ** 2,), ((N + 1) ** 2, 3)])), a, z, t],
            dict(N_sph=g.choice([None, N]), Y_nm=g.choice([None, s.sh_matrix(N, a, z, t)])))


add('sph.sht', _sht)
add('sph.sht_lstsq', _lsq)
add('sph.inverse_sht', _isht)
add('sph.sh_rotation_matrix', lambda g: (s.sh_rotation_matrix, [g.int(0, 3), g.real(), g.real(), g.real()],
                                         dict(sh_type=g.choice(['real', 'complex']), return_as_blocks=g.bool())))
add('sph.rotate_sh', lambda g: (s.rotate_sh, [arrs(g, 2, (g.int(0, 3) + 1) ** 2), g.real(), g.real(), g.real()],
                                dict(sh_type=g.choice(['real', 'complex']))))
add('sph.check_cond_sht', lambda g: (s.check_cond_sht, [1] + _dirs(g, 9) + ['real'], {}))
add('sph.n3d_to_sn3d', lambda g: (s.n3d_to_sn3d, [arrs(g, 9, 9)], dict(axis=g.choice([0, 1]))))
add('sph.sn3d_to_n3d', lambda g: (s.sn3d_to_n3d, [arrs(g, 9, 9)], dict(axis=g.choice([0, 1]))))
add('sph.sh_to_b', lambda g: (s.sh_to_b, [arrs(g, 4, 6)], dict(W_weight=g.choice([None, 1.3]))))
add('sph.b_to_sh', lambda g: (s.b_to_sh, [arrs(g, 4, 6)], dict(W_weight=g.choice([None, 1.3]))))
add('sph.soundfield_to_b', lambda g: (s.soundfield_to_b, [arrs(g, 4, 6)], dict(W_weight=g.choice([None, 1.3]))))
add('sph.src_to_b', lambda g: (s.src_to_b, [arrs(g, 6), g.real(), g.real(0, 3)], {}))
add('sph.src_to_sh', lambda g: (s.src_to_sh, [g.normal(3, 6)] + _dirs(g, 3) + [g.int(0, 3)],
                                dict(sh_type=g.choice(['real', 'complex']))))


def _bdirac(g):
    N = g.int(1, 4)
    return s.bandlimited_dirac, [N, g.normal(5)], dict(w_n=g.choice([None, np.abs(g.normal(N + 1)) + .1]))


add('sph.bandlimited_dirac', _bdirac)
add('sph.max_rE_weights', lambda g: (s.max_rE_weights, [g.int(0, 4)], {}))


def _rE(g):
    n = g.int(2, 6)
    return s.r_E, [g.unit(n), np.abs(g.normal(3, n)) + .01], {}


add('sph.r_E', _rE)
add('sph.project_on_sphere', lambda g: (s.project_on_sphere, [arrs(g, 4), arrs(g, 4), arrs(g, 4)], {}))
add('sph.repeat_per_order', lambda g: (s.repeat_per_order, [lst(g, arrs(g, g.int(1, 5)))], {}))
add('sph.spherical_hn2', lambda g: (s.spherical_hn2, [np.arange(3), 1 + np.abs(g.normal(3))],
                                    dict(derivative=g.bool())))
add('sph.mode_strength', lambda g: (s.mode_strength, [g.int(0, 3), 1 + np.abs(g.normal(3))],
                                    dict(sphere_type=g.choice(['rigid', 'open']))))


def _pons(g):
    N = g.int(1, 3)
    return s.pressure_on_sphere, [N, 1 + np.abs(g.normal(3))], dict(weights=g.choice([None, np.abs(g.normal(N + 1))]))


def _bcc(g):
    N = g.int(1, 3)
    return (s.binaural_coloration_compensation, [N, 100 + 1000 * np.abs(g.normal(4))],
            dict(w_taper=g.choice([None, np.abs(g.normal(N + 1)) + .1])))


add('sph.pressure_on_sphere', _pons)
add('sph.binaural_coloration_compensation', _bcc)
add('sph.unity_gain', lambda g: (s.unity_gain, [lst(g, np.abs(g.normal(4)))], {}))
add('sph.hypercardioid_modal_weights', lambda g: (s.hypercardioid_modal_weights, [g.int(0, 4)], {}))
add('sph.cardioid_modal_weights', lambda g: (s.cardioid_modal_weights, [g.int(0, 4)], {}))
add('sph.maxre_modal_weights', lambda g: (s.maxre_modal_weights, [g.int(0, 4)], dict(UNITAMP=g.bool())))
add('sph.butterworth_modal_weights', lambda g: (s.butterworth_modal_weights, [g.int(0, 4), 4, 2],
                                                dict(UNITAMP=g.bool())))
add('sph.sph_filterbank_reconstruction_factor', lambda g: (
    s.sph_filterbank_reconstruction_factor, [np.abs(g.normal(4)) + .1, g.int(4, 20)],
    dict(mode=g.choice(['amplitude', 'energy']))))


def _fb(g):
    N = g.int(1, 2)
    v = gr.load_t_design(2 * N + 1)
    a, z = u.vec2dir(v).T
    return (s.design_sph_filterbank, [N, a, z, np.abs(g.normal(N + 1)) + .1,
                                      g.choice(['perfect', 'energy'])],
            dict(sh_type=g.choice(['real', 'complex'])))


add('sph.design_sph_filterbank', _fb)
add('sph.sh_mult', lambda g: (s.sh_mult, [arrs(g, g.choice([1, 4])), arrs(g, g.choice([1, 4, 9])),
                                          g.choice(['real', 'complex'])], {}))

# ---- parsa
add('parsa.sh_beamformer_from_pattern', lambda g: (p.sh_beamformer_from_pattern,
                                                   [g.choice(['cardioid', 'hypercardioid', 'maxre']), g.int(1, 3)] + _dirs(g, 3), {}))
add('parsa.sh_beamform', lambda g: (p.sh_beamform, [arrs(g, 3, 9), arrs(g, 9, 12)], {}))
add('parsa.estimate_num_sources', lambda g: (p.estimate_num_sources, [psd(g, 9)], dict(a=g.choice([None, .2]))))
add('parsa.estimate_num_sources w', lambda g: (p.estimate_num_sources, [psd(g, 9)],
                                               dict(w=np.sort(np.abs(g.normal(9))) + .1)))
add('parsa.separate_cov', lambda g: (p.separate_cov, [psd(g, 9)], dict(num_cut=g.choice([None, 0, 2]))))
add('parsa.sh_music', lambda g: (p.sh_music, [psd(g, 9), g.int(0, 3)] + _dirs(g, 4), {}))
add('parsa.sh_mvdr', lambda g: (p.sh_mvdr, [psd(g, 9)] + _dirs(g, 4), {}))
add('parsa.sh_lcmv', lambda g: (p.sh_lcmv, [psd(g, 9)] + _dirs(g, 2) + [g.normal(2)], {}))
add('parsa.sh_sector_beamformer', lambda g: (p.sh_sector_beamformer, [arrs(g, 5, (g.int(1, 2) + 1) ** 2)], {}))


def _pint(g):
    b = sig.AmbiBSignal([g.normal(200) for _ in range(4)], fs=48000)
    return (p.pseudo_intensity, [b], dict(win_len=g.choice([9, 33]), f_bp=g.choice([None, [500, 4000]]),
                                          smoothing_order=g.choice([3, 5])))


add('parsa.pseudo_intensity', _pint)
add('parsa.render_stereo_sdm', lambda g: (p.render_stereo_sdm, [arrs(g, 30), g.normal(30), g.normal(30)], {}))
add('parsa.render_bsdm', lambda g: (p.render_bsdm, [arrs(g, 30), g.normal(30), np.abs(g.normal(30)), hr(g)], {}))


def _rbls(g):
    h = lay.setup(lay.full(g, 8))
    n = g.int(20, 40)
    hrirs = hr(g)

    def f(*a, hrirs):
        with mock.patch.object(spa.io, 'load_hrirs', lambda fs, *q, **k: hrirs):
            return p.render_binaural_loudspeaker_sdm(*a, post_eq_func=None)
    return f, [arrs(g, n), np.abs(g.normal(n, h.npoints)), h, 48000], dict(hrirs=hrirs)


add('parsa.render_binaural_loudspeaker_sdm', _rbls)


def _posteq(g):
    h = lay.setup(lay.full(g, 6))
    n = 300
    return p.sdm_post_equalization, [g.normal(h.npoints, n), g.normal(n), 48000, h], dict(soft_clip=g.bool())


def _posteq2(g):
    h = lay.setup(lay.full(g, 6))
    n = 1000
    return p.sdm_post_equalization2, [g.normal(h.npoints, n), g.normal(n), 48000, h], dict(blocksize=512)


SLOW = {'parsa.sdm_post_equalization': (_posteq, True)}
add('parsa.sdm_post_equalization2', _posteq2, heavy=True)

# ---- process
add('process.resample_hrirs', lambda g: (pr.resample_hrirs, [g.normal(3, 60), g.normal(3, 60), 48000, 44100], {}))
add('process.resample_signal', lambda g: (pr.resample_signal, [arrs(g, 60), 48000, 44100], {}))
add('process.resample_spectrum', lambda g: (pr.resample_spectrum, [np.fft.rfft(g.normal(64)), 48000, 44100], {}))
add('process.hrirs_ctf', lambda g: (pr.hrirs_ctf, [hr(g, 40, 64)], dict(
    MIN_PHASE=g.bool(), grid_weights=g.choice([None, np.full(40, 4 * np.pi / 40)]))), heavy=True)
add('process.ilds_from_hrirs', lambda g: (pr.ilds_from_hrirs, [hr(g, 4, 128)], dict(TODB=g.bool())))
add('process.itds_from_hrirs', lambda g: (pr.itds_from_hrirs, [hr(g, 4, 128)], {}))
add('process.match_loudness', lambda g: (pr.match_loudness, [arrs(g, 20, 2), arrs(g, 30, 2)], {}))
add('process.ambeo_a2b', lambda g: (pr.ambeo_a2b, [sig.MultiSignal([g.normal(9) for _ in range(4)], fs=48000)], {}))
add('process.b_to_stereo', lambda g: (pr.b_to_stereo, [sig.AmbiBSignal([g.normal(9) for _ in range(4)], fs=1)], {}))
add('process.lagrange_delay', lambda g: (pr.lagrange_delay, [g.int(1, 6), g.real(0, 5)], {}))
add('process.frac_octave_smoothing', lambda g: (pr.frac_octave_smoothing, [lst(g, arrs(g, 40)), g.choice([1, 3])],
                                                dict(WEIGHTED=g.bool())))
add('process.frac_octave_filterbank', lambda g: (pr.frac_octave_filterbank, [g.choice([1, 3]), 513, 48000, 100],
                                                 dict(f_high=g.choice([None, 8000]), mode=g.choice(['energy', 'amplitude']))))
add('process.subband_levels', lambda g: (pr.subband_levels, [g.normal(3, 9), np.abs(g.normal(3)), 48000],
                                         dict(power=g.bool())))
add('process.energy_decay', lambda g: (pr.energy_decay, [arrs(g, 30)], {}))
add('process.half_sided_Hann', lambda g: (pr.half_sided_Hann, [g.int(3, 9)], {}))
add('process.gain_clipping', lambda g: (pr.gain_clipping, [3 * arrs(g, 20), g.choice([1, .5])], {}))
add('process.gain_clipping unit', lambda g: (pr.gain_clipping, [3 * arrs(g, 3, 4), 1], {}))
add('process.pulsed_noise', lambda g: (pr.pulsed_noise, [.05, .05, 4000], dict(reps=2, t_fade=.01)))

# ---- decoder


def _src(g, n=3):
    return g.unit(n) * g.choice([1, 2.5])


add('decoder.LoudspeakerSetup', lambda g: (d.LoudspeakerSetup, [lst(g, c) for c in np.array(lay.full(g, 8)).T.copy()],
                                           dict(listener_position=g.choice([None, [.05, 0, 0], np.array([0, .04, 0])]))))


def _fromsph(g):
    a, z, r = u.cart2sph(*lay.full(g, 8).T)
    return d.LoudspeakerSetup.from_sph, [a, z], dict(r=r, listener_position=g.choice([None, [.1, .2, .05]]))


add('decoder.LoudspeakerSetup.from_sph', _fromsph)


def _own(name, *args):
    return lambda g: (lambda h, *a: getattr(h, name)(*copy.deepcopy(a)), [dspeaker(g)] + [a(g) for a in args], {})


for fn in ('calculate_centroids', 'calculate_face_areas', 'calculate_face_normals', 'calculate_vertex_normals',
           'calculate_barycenter', 'check_listener_inside', 'check_normals', 'check_aperture', 'check_opening'):
    add('decoder.' + fn, lambda g, fn=fn: (getattr(d, fn), [dspeaker(g)], {}))
add('decoder.check_normals pos', lambda g: (d.check_normals, [dspeaker(g)], dict(listener_position=np.array([.1, 0, 0]))))
add('decoder.apply_blacklist', lambda g: (d.apply_blacklist, [dspeaker(g)], dict(blacklist=g.choice([None, [0, 1]]))))
add('decoder.sort_vertices', lambda g: (d.sort_vertices, [dspeaker(g)._hull.simplices.copy()], {}))
add('decoder.get_hull', lambda g: (d.get_hull, list(lay.full(g, 8).T.copy()), {}))


def _imag(g):
    h = lay.setup(lay.dome(g))
    h.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150)
    return d.find_imaginary_loudspeaker, [h], {}


add('decoder.find_imaginary_loudspeaker', _imag)
add('decoder.characteristic_ambisonic_order', lambda g: (d.characteristic_ambisonic_order, [dspeaker(g)], {}))
add('decoder.get_characteristic_order', lambda g: (lambda h: h.get_characteristic_order(), [dspeaker(g)], {}))
add('decoder.is_simplex_valid', lambda g: (lambda h, f: h.is_simplex_valid(f), [dspeaker(g), np.array([0, 1, 2])], {}))
add('decoder.binauralize', lambda g: (lambda h, *a: h.binauralize(*a),
                                      [(h := dspeaker(g)), arrs(g, h.npoints, 9), 48000, (g.real(), g.real()), hr(g)], {}))
add('decoder.loudspeaker_signals', lambda g: (lambda h, *a: h.loudspeaker_signals(*a),
                                              [(h := dspeaker(g)), arrs(g, 9, h.npoints), g.normal(9)], {}))
add('decoder.vbap', lambda g: (d.vbap, [_src(g), dspeaker(g)], dict(norm=g.choice([1, 2]))))
add('decoder.vbap simplices', lambda g: (d.vbap, [_src(g), (h := dspeaker(g))],
                                         dict(valid_simplices=h.valid_simplices[::-1].copy())))
add('decoder.vbap retain', lambda g: (d.vbap, [_src(g), ambi(g)], dict(retain_outside=True)))
add('decoder.vbap pool', lambda g: (d.vbap, [_src(g, 12), dspeaker(g)], dict(jobs_count=2)), heavy=True)
add('decoder.vbip', lambda g: (d.vbip, [_src(g), dspeaker(g)], {}))
add('decoder.vbip retain', lambda g: (d.vbip, [_src(g), ambi(g)], dict(retain_outside=True)))
add('decoder.allrap', lambda g: (d.allrap, [_src(g), ambi(g)], dict(N_sph=g.choice([None, 2]))))
add('decoder.allrap2', lambda g: (d.allrap2, [_src(g), ambi(g)], dict(N_sph=g.choice([None, 2]))))
add('decoder.allrad', lambda g: (d.allrad, [arrs(g, 9, 4), ambi(g)], {}))
add('decoder.allrad2', lambda g: (d.allrad2, [arrs(g, 9, 4), ambi(g)], {}))
for fn in ('sad', 'mad', 'epad'):
    add('decoder.' + fn, lambda g, fn=fn: (getattr(d, fn), [arrs(g, 4, 5), ambi(g, upd=False)],
                                           dict(N_sph=1)))
add('decoder.nearest_loudspeaker', lambda g: (d.nearest_loudspeaker, [_src(g), dspeaker(g)], {}))
add('decoder.sh2bin', lambda g: (d.sh2bin, [arrs(g, 4, 9), g.normal(2, 4, 6)], {}))
add('decoder.magls_bin', lambda g: (d.magls_bin, [hr(g, 20, 64), 1],
                                    dict(hf_cont=g.choice(['avg', 'angle', 'delay']), f_trans=1500,
                                         hf_delay=g.choice([(0, 0), [1, 2]]))))

# ---- grids
add('grids.calculate_grid_weights', lambda g: (gr.calculate_grid_weights, _dirs(g, 16), dict(order=g.choice([1, 2]))))

# ---- sig
add('sig.MonoSignal', lambda g: (sig.MonoSignal, [lst(g, arrs(g, 7)), 48000], {}))
add('sig.MultiSignal', lambda g: (sig.MultiSignal, [[lst(g, arrs(g, 7)), arrs(g, 7)]], dict(fs=48000)))
add('sig.AmbiBSignal', lambda g: (sig.AmbiBSignal, [[g.normal(7) for _ in range(4)]], dict(fs=48000)))
add('sig.HRIRs', lambda g: (sig.HRIRs, [g.normal(3, 5), g.normal(3, 5)] + _dirs(g, 3) + [48000], {}))
add('sig.sh_to_b', lambda g: (sig.AmbiBSignal.sh_to_b, [sig.MultiSignal([g.normal(7) for _ in range(4)], fs=8)], {}))
add('sig.trim_audio', lambda g: (sig.trim_audio, [sig.MultiSignal([g.normal(50) for _ in range(2)], fs=10), .55, 2.55], {}))
add('sig.HRIRs.nearest_hrirs', lambda g: (lambda h, a, z: h.nearest_hrirs(a, z), [hr(g), g.real(), g.real(0, 3)], {}))
add('sig.HRIRs.nearest_idx', lambda g: (lambda h, a, z: h.nearest_idx(a, z), [hr(g)] + _dirs(g, 3), {}))


def _mutate_then(name):
    """methods may change the object itself; the arrays it was built from stay the caller's"""
    def f(*arrays_and_args):
        kind, rest = arrays_and_args[0], arrays_and_args[1:]
        if kind == 'mono':
            m = sig.MonoSignal(rest[0], 20)
        elif kind == 'multi':
            m = sig.MultiSignal(list(rest[0]), fs=20)
        else:
            m = sig.AmbiBSignal(list(rest[0]), fs=20)
        if name == 'trim':
            m.trim(.07, 1.52)
        elif name == 'conv':
            m.conv(rest[1] if kind == 'mono' else list(rest[1]))
        elif name == 'resample':
            m.resample(30)
        elif name == 'set' and kind == 'b':
            m.W = rest[1][0]
            m.Z = m.X
        elif name == 'apply':
            m.apply(np.abs, rest[1] if kind == 'mono' else rest[1][0])
        return m
    return f


for nm in ('trim', 'conv', 'resample', 'set', 'apply'):
    add('sig.%s' % nm, lambda g, nm=nm: (_mutate_then(nm), (lambda k: [k, g.normal(50), g.normal(5)] if k == 'mono' else
                                         [k, [g.normal(50) for _ in range(4)], [g.normal(5) for _ in range(4)]])(
        g.choice(['mono', 'multi', 'b'])), {}))


def _copy_indep(obj):
    """changing a copy must leave the original as it was"""
    c = obj.copy() if hasattr(obj, 'copy') else copy.deepcopy(obj)
    if isinstance(c, sig.HRIRs):
        c.left[:] = 0
        c.right += 1
        c.azi += 1
        c.zen *= 0
        c.apply_ctf_eq(np.ones(3))
        c.update_hrirs(np.zeros((len(c.azi), 4)), np.zeros((len(c.azi), 4)))
        c.fs = 1
    elif isinstance(c, sig.MultiSignal):
        for ch in c.channels:
            ch.signal[:] = 7
            ch.signal = np.ones(3)
        c.channels.append(c.channels[0])
        c.channels.reverse()
        if isinstance(c, sig.AmbiBSignal):
            c.W = np.zeros(3)
    else:
        c.signal[:] = 3
        c.signal = np.zeros(2)
    return None


add('copy mono', lambda g: (_copy_indep, [sig.MonoSignal(g.normal(9), 10)], {}))
add('copy multi', lambda g: (_copy_indep, [sig.MultiSignal([g.normal(9) for _ in range(3)], fs=10)], {}))
add('copy b', lambda g: (_copy_indep, [sig.AmbiBSignal([g.normal(9) for _ in range(4)], fs=10)], {}))
add('copy hrirs', lambda g: (_copy_indep, [hr(g)], {}))


def _setup_sequence(x, y, z, imag):
    h = d.LoudspeakerSetup(x, y, z)
    h.pop_triangles(normal_limit=85, aperture_limit=90, opening_limit=150, blacklist=[0, 1])
    h.ambisonics_setup(update_hull=True, imaginary_ls=imag, N_kernel=3, characteristic_order=1)
    return h


add('decoder.ambisonics_setup', lambda g: (_setup_sequence, list(lay.dome(g).T.copy()) + [np.array([[0, 0, -1.]])], {}))

# ---- io


def _save_audio(x, fs):
    with tempfile.TemporaryDirectory() as t:
        io.save_audio(x, os.path.join(t, 'a.wav'), fs)


def _save_layout(h):
    with tempfile.TemporaryDirectory() as t:
        io.save_layout(os.path.join(t, 'a.json'), h)


add('io.save_audio', lambda g: (_save_audio, [.1 * arrs(g, 20, 2), 48000], {}))
add('io.save_audio signal', lambda g: (_save_audio, [sig.MultiSignal([g.normal(9)] * 2, fs=48000), 48000], {}))
add('io.save_layout', lambda g: (_save_layout, [ambi(g)], {}))


def _ssr_sdm(*a):
    with tempfile.TemporaryDirectory() as t:
        io.write_ssr_brirs_sdm(os.path.join(t, 'a.wav'), *a[:-1], hrirs=a[-1])


def _ssr_ls(*a):
    with tempfile.TemporaryDirectory() as t:
        io.write_ssr_brirs_loudspeaker(os.path.join(t, 'a.wav'), *a[:-1], hrirs=a[-1])


add('io.write_ssr_brirs_sdm', lambda g: (_ssr_sdm, [g.normal(4), g.normal(4), np.abs(g.normal(4)), 48000, hr(g, 8, 6)], {}), True)
add('io.write_ssr_brirs_loudspeaker', lambda g: (_ssr_ls, [g.normal((h := lay.setup(lay.full(g, 6))).npoints, 4), h, 48000,
                                                           hr(g, 8, 6)], {}), True)


# ---- plot
def _plot(f):
    def run(*a, **k):
        import matplotlib.pyplot as plt
        try:
            f(*a, **k)
        finally:
            plt.close('all')
    return run


add('plot.spectrum', lambda g: (_plot(pl.spectrum), [g.normal(64), 48000], dict(scale_mag=g.bool())), True)
add('plot.spectrum list', lambda g: (_plot(pl.spectrum), [[g.normal(64), g.normal(64)], 48000], {}), True)
add('plot.freq_resp', lambda g: (_plot(pl.freq_resp), [np.linspace(0, 24000, 33), np.abs(g.normal(33))],
                                 dict(TODB=g.bool(), smoothing_n=g.choice([None, 3]), labels=['a'])), True)
add('plot.freq_resp list', lambda g: (_plot(pl.freq_resp), [np.linspace(0, 24000, 33), [np.abs(g.normal(33)) for _ in range(2)]],
                                      dict(smoothing_n=3, labels=['a', 'b'])), True)
add('plot.transfer_function', lambda g: (_plot(pl.transfer_function), [np.linspace(1, 24000, 33), g.cnormal(33)], {}), True)
add('plot.zeropole', lambda g: (_plot(pl.zeropole), [g.normal(3), np.r_[1, .2, .1]], dict(zPlane=g.bool())), True)
add('plot.spherical_function', lambda g: (_plot(pl.spherical_function), [g.normal(6)] + [np.asarray(x) for x in g.dirs(6)], {}), True)
add('plot.sh_coeffs', lambda g: (_plot(pl.sh_coeffs), [arrs(g, 4)], dict(azi_steps=30, el_steps=30)), True)
add('plot.sh_coeffs_subplot', lambda g: (_plot(pl.sh_coeffs_subplot), [[g.normal(4), g.normal(4)]],
                                         dict(titles=['a', 'b'], azi_steps=30, el_steps=30)), True)
add('plot.sh_coeffs_overlay', lambda g: (_plot(pl.sh_coeffs_overlay), [[g.normal(4), g.normal(4)]],
                                         dict(azi_steps=30, el_steps=30)), True)
add('plot.sh_rms_map', lambda g: (_plot(pl.sh_rms_map), [arrs(g, 4, 5)],
                                  dict(TODB=g.bool(), w_n=g.choice([None, np.ones(2)]), n_plot=10)), True)
add('plot.sh_rms_map clim', lambda g: (_plot(pl.sh_rms_map), [arrs(g, 4, 5)],
                                       dict(TODB=g.bool(), clim=g.choice([[0, None], [None, 3.], [.1, 2.]]), n_plot=10)), True)
add('plot.spherical_function_map', lambda g: (_plot(pl.spherical_function_map), [g.normal(7)] + [x % (2*np.pi) for x in g.dirs(7)],
                                              dict(TODB=g.bool())), True)
add('plot.sh_bar', lambda g: (_plot(pl.sh_bar), [g.choice([g.normal(4), g.normal(4, 2), [g.normal(4), g.normal(4)]])],
                              dict(TODB=g.bool(), centered=False)), True)
add('plot.hull', lambda g: (_plot(pl.hull), [dspeaker(g)], dict(title='x')), True)
add('plot.hull_normals', lambda g: (_plot(pl.hull_normals), [dspeaker(g)], {}), True)
add('plot.polar', lambda g: (_plot(pl.polar), [np.linspace(0, 6, 9), g.normal(9)], dict(
    TODB=g.bool(), rlim=g.choice([None, [-20, 6]]))), True)
add('plot.doa', lambda g: (_plot(pl.doa), [g.choice([1, 3]) * g.normal(6), np.abs(g.normal(6))],
                           dict(p=g.choice([None, g.normal(6)]), fs=g.choice([None, 48000]))), True)
add('plot.hrirs_ild_itd', lambda g: (_plot(pl.hrirs_ild_itd), [hr(g, 14, 128)], {}), True)
add('plot.decoder_performance', lambda g: (_plot(pl.decoder_performance), [dspeaker(g), g.choice(['VBAP', 'NLS'])],
                                           dict(azi_steps=40, ele_steps=40)), True)


def _run(g, name):
    build, _ = CALLS[name]
    f, args, kw = build(g)
    g.note(call=name, args=args[:3], kwargs=kw)
    # a read-only marker would change behaviour; compare values before and after instead
    before = fingerprint([args, kw])
    d0 = defaults()
    np.random.seed(3)
    try:
        f(*args, **kw)
        raised = None
    except (ValueError, RuntimeError, NotImplementedError, AssertionError, KeyError) as e:
        raised = e          # rejecting an argument is fine here; it must still not be modified
    after = fingerprint([args, kw])
    if before != after:
        diff = [i for i, (a, b) in enumerate(zip(before[1][0][1], after[1][0][1])) if a != b]
        kd = [] if diff else sorted(kw)
        g.check(False, f'{name}: the caller\'s argument {diff or kd} was modified by the call')
    g.evals += 1
    d1 = defaults()
    g.check(d0 == d1, f'{name}: a default argument was changed by the call: {[k for k in d0 if d0[k] != d1.get(k)]}')
    if raised is None:
        # a second identical call must see the same arguments and defaults
        g.note(ok=True)
    return raised


LIGHT = [k for k, (f, h) in CALLS.items() if not h]
HEAVY = [k for k, (f, h) in CALLS.items() if h]


@contract('C16', cases=3 * len(LIGHT), thorough=30 * len(LIGHT), fns=LIGHT, budget=30)
def arguments_unchanged(g):
    _run(g, LIGHT[g.index % len(LIGHT)])


@contract('C16', cases=2 * len(HEAVY), thorough=12 * len(HEAVY), fns=HEAVY, budget=40)
def arguments_unchanged_costly(g):
    _run(g, HEAVY[g.index % len(HEAVY)])


@contract('C16', cases=15, thorough=120, fns=['repeat call'])
def repeated_call_same_result(g):
    """the same call on the same arguments gives the same result (no hidden state)"""
    names = [k for k in LIGHT if not k.startswith(('process.pulsed', 'copy', 'io.', 'sig.set', 'sig.apply',
                                                   'decoder.LoudspeakerSetup'))]
    for name in [names[(g.index * 11 + j) % len(names)] for j in range(11)]:
        f, args, kw = CALLS[name][0](g)
        try:
            a = f(*args, **kw)
            b = f(*args, **kw)
        except (ValueError, RuntimeError, NotImplementedError, AssertionError, KeyError):
            continue
        g.check(fingerprint(a) == fingerprint(b), f'{name}: calling it twice gives two different results')


@contract('C16', cases=1, thorough=10, fns=list(SLOW), budget=40)
def arguments_unchanged_post_eq(g):
    CALLS.update(SLOW)
    for k in SLOW:
        _run(g, k)
