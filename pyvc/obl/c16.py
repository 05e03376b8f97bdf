"""C16: frame conditions of the public functions, verified over their source by pyvc/effects.py."""
from ..vc import obligation, Open, Refuted
from .. import effects

LIB = ['library functions write to an argument only as their contracts in pyvc/effects.py say (out=, overwrite_*, mutating methods); '
       'results of numpy and scipy functions not listed there as views are new arrays',
       'methods of matplotlib, soundfile, h5py, json, resampy, sounddevice and multiprocessing objects do not write to their arguments',
       'attributes of parameters reached by different attribute names are different objects',
       'parameters documented as numbers or strings are immutable; a function given by the caller is responsible for what it writes to']

PUBLIC = {
    'utils': 'asarray_1d deg2rad rad2deg cart2sph sph2cart matlab_sph2cart cart2dir dir2cart vec2dir angle_between rotation_euler '
             'rotation_rodrigues rotation_vecvec haversine area_triangle db from_db rms stack test_diff interleave_channels',
    'sph': 'sh_matrix sht sht_lstsq inverse_sht sh_rotation_matrix rotate_sh check_cond_sht n3d_to_sn3d sn3d_to_n3d platonic_solid sh_to_b '
           'b_to_sh soundfield_to_b src_to_b src_to_sh bandlimited_dirac max_rE_weights r_E project_on_sphere repeat_per_order '
           'spherical_hn2 mode_strength pressure_on_sphere binaural_coloration_compensation unity_gain hypercardioid_modal_weights '
           'cardioid_modal_weights maxre_modal_weights butterworth_modal_weights sph_filterbank_reconstruction_factor '
           'design_sph_filterbank sh_mult',
    'grids': 'calculate_grid_weights load_t_design load_n_design load_lebedev load_Fliege_Maier_nodes load_maxDet equal_angle gauss '
             'equal_polar_angle',
    'sig': 'MonoSignal.__init__ MonoSignal.__len__ MonoSignal.__getitem__ MonoSignal.signal MonoSignal.signal.setter MonoSignal.fs '
           'MonoSignal.from_file MonoSignal.copy MonoSignal.save MonoSignal.trim MonoSignal.apply MonoSignal.conv MonoSignal.resample '
           'MonoSignal.play MultiSignal.__init__ MultiSignal.num_channels MultiSignal.signals MultiSignal.__len__ '
           'MultiSignal.__getitem__ MultiSignal.from_file MultiSignal.get_signals MultiSignal.trim MultiSignal.apply MultiSignal.conv '
           'MultiSignal.resample MultiSignal.play AmbiBSignal.__init__ AmbiBSignal.W AmbiBSignal.W.setter AmbiBSignal.X '
           'AmbiBSignal.X.setter AmbiBSignal.Y AmbiBSignal.Y.setter AmbiBSignal.Z AmbiBSignal.Z.setter AmbiBSignal.from_file '
           'AmbiBSignal.sh_to_b HRIRs.__init__ HRIRs.__len__ HRIRs.__getitem__ HRIRs.copy HRIRs.update_hrirs HRIRs.nearest_hrirs '
           'HRIRs.nearest_idx HRIRs.apply_ctf_eq trim_audio',
    'process': 'resample_hrirs resample_signal resample_spectrum hrirs_ctf ilds_from_hrirs itds_from_hrirs match_loudness ambeo_a2b '
               'b_to_stereo lagrange_delay frac_octave_smoothing frac_octave_filterbank subband_levels energy_decay half_sided_Hann '
               'gain_clipping pulsed_noise',
    'decoder': 'LoudspeakerSetup.__init__ LoudspeakerSetup.from_sph LoudspeakerSetup.is_simplex_valid LoudspeakerSetup.pop_triangles '
               'LoudspeakerSetup.get_characteristic_order LoudspeakerSetup.ambisonics_setup LoudspeakerSetup.binauralize '
               'LoudspeakerSetup.loudspeaker_signals LoudspeakerSetup.show get_hull calculate_centroids calculate_face_areas '
               'calculate_face_normals calculate_vertex_normals calculate_barycenter check_listener_inside check_normals '
               'check_aperture check_opening apply_blacklist sort_vertices find_imaginary_loudspeaker vbap vbip '
               'characteristic_ambisonic_order allrap allrap2 allrad allrad2 sad mad epad nearest_loudspeaker sh2bin magls_bin',
    'parsa': 'sh_beamformer_from_pattern sh_beamform estimate_num_sources separate_cov sh_music sh_mvdr sh_lcmv sh_sector_beamformer '
             'pseudo_intensity render_stereo_sdm render_bsdm render_binaural_loudspeaker_sdm sdm_post_equalization '
             'sdm_post_equalization2',
    'plot': 'spectrum freq_resp transfer_function zeropole compare_ambi spherical_function sh_coeffs sh_coeffs_subplot '
            'sh_coeffs_overlay sh_rms_map spherical_function_map sh_bar hull hull_normals polar decoder_performance doa '
            'hrirs_ild_itd set_aspect_equal3d',
    'io': 'load_audio save_audio load_hrirs get_default_hrirs load_sofa_data load_sofa_hrirs sofa_to_sh load_sdm '
          'write_ssr_brirs_loudspeaker write_ssr_brirs_sdm load_layout save_layout',
}


def by_name():
    return {f.name: f for f in effects.world().public}


def frame(v, mod):
    fns = by_name()
    bad, sure = [], False
    for n in PUBLIC[mod].split():
        f = fns.get(f'{mod}.{n}')
        if f is None:
            raise Open(f'no function {mod}.{n}')
        v.I.functions.add(f.name)
        for i, p in enumerate(f.all + [f.vararg or '*', f.kwarg or '**']):
            if i >= len(f.all) and p in ('*', '**') or f.method and i == 0:
                continue
            v.rec['count'] += 1
            w = {l: x for l, x in f.sum.writes.items() if l[1] == i}
            if not w:
                v.rec['vcs'].append((f'{f.name}: {p} unchanged', True, 'effects', ''))
            for l, x in w.items():
                what = p if l[0] == 'P' else f'{p}{l[2] if l[2].startswith("[") else "." + l[2]}'
                bad.append(f'{f.name} writes to the {what} of the caller ({x})')
                sure |= l in f.sum.sure
    if bad:
        raise (Refuted if sure else Open)('; '.join(bad[:5]))


def make(mod):
    @obligation('C16', f'frame_{mod}', assumptions=LIB, timeout=120)
    def ob(v):
        frame(v, mod)
    ob.__doc__ = f'no function of {mod} writes to an object of its caller other than the one it is a method of'


for _m in PUBLIC:
    make(_m)


@obligation('C16', 'copies', assumptions=['copy.deepcopy returns an object sharing nothing mutable with its argument'], timeout=120)
def copies(v):
    """copy returns a new object that shares nothing with the original"""
    fns = by_name()
    for n in ('sig.MonoSignal.copy', 'sig.HRIRs.copy'):
        f = fns.get(n)
        if f is None:
            raise Open(f'no function {n}')
        v.I.functions.add(n)
        v.rec['count'] += 1
        if f.sum.ret - {'new'} or f.sum.new or not f.sum.ret:
            raise Open(f'{n}: the result shares {sorted(map(str, f.sum.ret | f.sum.new))} with the original')
        v.rec['vcs'].append((n, True, 'effects', ''))


@obligation('C16', 'ownership', assumptions=LIB, timeout=120)
def ownership(v):
    """objects that methods change below self were made by the constructor, never handed in by the caller"""
    w = effects.world()
    for cls, ms in w.classes.items():
        if cls is None:
            continue
        family = [f for c, m in w.classes.items() if c is not None and issubclass(cls, c) for f in m.values()]
        family += [f for fs in w.setters.values() for f in fs if issubclass(cls, f.cls)]
        written = {l[2] for f in family if f.method for l in f.sum.writes if l[0] == 'D' and l[1] == 0}
        items = {l for f in family if f.method for l in f.sum.items}
        for a in sorted(written):
            for f in w.public:
                v.rec['count'] += 1
                vals = f.sum.stores if f in family and ('D', 0, a) in items else f.sum.owned
                for (l, b), vals in vals.items():
                    if b == a and l == ('P', 0) and f in family and any(x != 'new' and x[1] != 0 for x in vals):
                        raise Open(f'{f.name} keeps an object of the caller as {a}, which methods of {cls.__name__} change')
                v.rec['vcs'].append((f'{cls.__name__}.{a} in {f.name}', True, 'effects', ''))
            for f in family:
                v.I.functions.add(f.name)
