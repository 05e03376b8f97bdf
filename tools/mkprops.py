import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Coordinate, angle-unit and level conversions are mutually inverse",
"For every Cartesian point other than the origin, in arrays of any shape, converting to spherical coordinates or to a direction and back returns the point (or its unit direction), with the radius equal to the Euclidean norm, azimuth in (-pi, pi] (in [0, 2pi) on request), zenith in [0, pi], and every element converted independently of the others. The zenith-based, elevation-based and vector-based variants all describe the same direction, and the origin-safe variant returns a finite zenith of pi/2 at the origin. Degrees/radians and decibel/ratio conversions are mutually inverse (modulo one full turn, which lands in [0, 360) or [0, 2pi)).",
["inputs"],"every finite non-zero point / every real angle / every positive ratio, arrays of every shape",
"Tests compare a handful of fixed points; they never cover all octants, axes, radii, shapes, negative or wrapped angles and the inverse composition for every input.",
["spaudiopy/utils.py"],[("cart2sph/sph2cart/cart2dir/dir2cart/vec2dir/matlab_sph2cart","spaudiopy/utils.py"),("deg2rad/rad2deg/db/from_db","spaudiopy/utils.py")],["return values of the conversion functions"])

p("C02","Rotation matrices are proper rotations with the stated axis, angle and target",
"Every rotation matrix the library builds is orthogonal with determinant +1: the yaw/pitch/roll matrix equals the product of the single-axis matrices about z, y and x in that order and each single-axis matrix leaves its own axis fixed. The axis-angle matrix leaves its (arbitrary length) axis fixed and turns every perpendicular vector by the signed angle given, so that opposite angles give inverse matrices. The vector-to-vector matrix maps the direction of the first vector onto the direction of the second for every non-parallel pair, and parallel pairs are rejected.",
["inputs"],"every yaw, pitch, roll; every non-zero axis and every signed angle; every non-parallel pair of vectors",
"Tests use a few fixed angles and axes, all with positive angle; orthogonality and the axis/angle semantics are universally quantified real identities.",
["spaudiopy/utils.py"],[("rotation_euler, rotation_rodrigues, rotation_vecvec","spaudiopy/utils.py")],["returned 3x3 matrix"])

p("C03","Angular distances on the sphere are true central angles",
"The angle between two vectors lies in [0, pi], is symmetric, is unaffected by positive scaling of either vector and by translating both points together with the optional origin, and its cosine equals the normalised inner product; a set of vectors gives the same result element by element. The great-circle distance between two directions equals radius times that angle and is symmetric. Nothing outside the cosine's domain is ever produced by rounding (the angle between identical or opposite vectors is finite).",
["inputs"],"every pair of non-zero vectors / directions, every common origin, every radius",
"Tests sample few point pairs; agreement of two independent formulas, symmetry and range hold for all inputs or not at all.",
["spaudiopy/utils.py"],[("angle_between, haversine, area_triangle","spaudiopy/utils.py")],["returned angles"])

p("C04","Spherical harmonics matrix: channel order, conventions and row locality",
"For every order N and every list of directions the spherical harmonics matrix has one row per direction and (N+1)^2 columns, where column n^2+n+m holds degree n, order m; the matrix of a smaller order is the left part of the matrix of a larger one, and each row depends on its own direction only. In the complex convention the column of -m is (-1)^m times the conjugate of the column of m, and the real convention is related to it by sqrt(2)(-1)^m times the real (m>0) or imaginary (m<0) part of the |m| column. Inner products of rows follow the addition theorem, so that the squared row norm is (N+1)^2/(4 pi) in both conventions.",
["inputs"],"every order N >= 0, every number of directions, every direction, both conventions",
"Tests compare against stored reference values at one order; index bookkeeping and conventions must be right at every order and for any number of directions.",
["spaudiopy/sph.py"],[("sh_matrix (nested n, m loop with running column index)","spaudiopy/sph.py")],["returned matrix"],
[("idx","running channel index, must equal n^2+n+m","sph.sh_matrix")])

p("C05","Spherical harmonics transform and its inverse recover band-limited functions",
"On every grid whose quadrature integrates the harmonics exactly, transforming a band-limited function (with or without explicit quadrature weights, real or complex convention) and inverting returns the function, and inverting then transforming returns the coefficients; the least-squares transform does so on every grid whose harmonics matrix has full column rank. All transforms are linear, treat every signal column independently, accept a single function as one column, and give the same result whether the harmonics matrix is computed internally or passed in. The product of two spherical functions computed in the coefficient domain is the coefficient set of the pointwise product, for every pair of orders whose sum the stored designs support, for real and complex coefficients.",
["inputs"],"every order, every exact grid, every coefficient set, any number of columns, both conventions, both weighting modes",
"Tests run one order on one grid; conjugations, weights and scaling errors show only for complex, multi-column or weighted cases.",
["spaudiopy/sph.py"],[("sht, inverse_sht, sht_lstsq, sh_mult","spaudiopy/sph.py")],["returned coefficients / function values"])

p("C06","Rotating in the harmonics domain equals encoding rotated directions",
"For every order (including 0) and every yaw, pitch and roll, the rotation matrix in the real harmonics domain maps the encoding of any direction onto the encoding of the direction rotated by the corresponding Cartesian rotation matrix. It is orthogonal and block-diagonal by degree, its blocks are available separately and identical, the matrix of a smaller order is the leading block of that of a larger one, and rotating one or many coefficient sets equals applying that matrix to each of them.",
["inputs"],"every order, all rotation angles, every direction and every coefficient set",
"Tests use a few angles at one order; the recursion has distinct cases at every (m, n) corner, and order 0 or 1 take different paths.",
["spaudiopy/sph.py","spaudiopy/utils.py"],[("sh_rotation_matrix (Ivanic-Ruedenberg recursion), rotate_sh","spaudiopy/sph.py"),("rotation_euler","spaudiopy/utils.py")],["returned matrix / rotated coefficients"])

p("C07","Ambisonic channel formats convert losslessly and agree with the encoder",
"Converting between N3D and SN3D scales exactly the channels of degree n by 1/sqrt(2n+1) (or its inverse) along the selected axis for every order, leaves all other structure unchanged, and the two directions are inverse to each other. First-order harmonics signals convert to W, X, Y, Z and back without loss for any W weight, and encoding a source as W, X, Y, Z equals converting its harmonics encoding, with W carrying the signal itself. Per-degree values are repeated exactly 2n+1 times for degree n, and a plane wave is encoded as the outer product of conjugated harmonics and the signal.",
["inputs"],"every order, every coefficient array, both axes, every W weight, every source direction and signal",
"Tests touch one order and one axis; the repeat pattern and axis handling must be right for every order and array layout.",
["spaudiopy/sph.py"],[("n3d_to_sn3d, sn3d_to_n3d, sh_to_b, b_to_sh, src_to_b, src_to_sh, repeat_per_order, soundfield_to_b","spaudiopy/sph.py")],["returned channel arrays"])

p("C08","Modal weight designs have unit response in the look direction",
"For every order, the hypercardioid, cardioid, and (with unit amplitude requested) max-rE and Butterworth modal weights, and any weights after unity-gain normalisation, sum to a pattern with response exactly 1 in its look direction; normalising keeps the ratios between weights. The band-limited Dirac with any weights is the Legendre sum of those weights, hypercardioid weights are constant over degrees, cardioid weights realise the pattern ((1+cos)/2)^N, and an axis-symmetric beamformer built from any pattern and steered anywhere has exactly that pattern's value as response toward a source at the corresponding angle, also after summing over any number of signals.",
["inputs"],"every order N, every weight vector, every steering and source direction, every filter parameter",
"Tests check single orders; the unit response is a sum over all degrees that must hold for every order.",
["spaudiopy/sph.py","spaudiopy/parsa.py"],[("unity_gain, hypercardioid_modal_weights, cardioid_modal_weights, maxre_modal_weights, butterworth_modal_weights, bandlimited_dirac, max_rE_weights","spaudiopy/sph.py"),("sh_beamformer_from_pattern, sh_beamform","spaudiopy/parsa.py")],["returned weights, beam response"])

p("C09","Adaptive beamformers and subspace estimates satisfy their constraints",
"For every real symmetric positive definite covariance the minimum-variance beamformer has response exactly 1 toward every steering direction, and the linearly constrained one has exactly the requested response toward each constraint direction, with no other beamformer of the same response giving less output power. Splitting a covariance yields a signal part and a residual part that add up to the input for every number of sources from none to one less than the number of channels, the signal part being positive semidefinite with rank at most that number; the MUSIC spectrum is positive and is the reciprocal of the (minimally regularised) energy of the steering vector in the noise subspace, for every assumed source count from none up; the estimated number of sources lies between 0 and one less than the number of channels and is right for equally strong sources far above a flat noise floor. Every result follows the direction order of its inputs.",
["inputs"],"every positive definite covariance, every order, every number of directions and constraints, every source count",
"Tests run one simulated scene; constraint satisfaction must hold for every covariance and geometry and for the boundary source counts.",
["spaudiopy/parsa.py"],[("sh_mvdr, sh_lcmv, separate_cov, sh_music, estimate_num_sources","spaudiopy/parsa.py")],["returned weights, covariance parts, spectrum"])

p("C10","Spherical filterbank analysis/synthesis reconstructs the sound field",
"For every order, every full set of analysis weights without zeros and every sector layout that integrates harmonics products exactly, analysis followed by synthesis of the spherical filterbank is the identity on the harmonics coefficients in the perfect mode, for both conventions, and in the pseudo-inverse mode it is the identity whenever the sector responses have full column rank. In the energy mode it is one common scalar (positive for a positive zeroth weight) times the identity, and the amplitude, respectively energy, reconstruction factor scales the summed sector responses, respectively summed squared responses, to a plane wave from any direction to exactly one.",
["inputs"],"every order, every weight vector, every exact sector layout, three modes, both conventions",
"Tests check one order with one t-design; a wrong weight or conjugation in the synthesis only shows at other orders, weights or conventions.",
["spaudiopy/sph.py"],[("design_sph_filterbank, sph_filterbank_reconstruction_factor","spaudiopy/sph.py")],["product of the returned matrices"])

p("C11","Amplitude panning places each source inside a valid loudspeaker triangle",
"For every source list and every triangulated loudspeaker layout, each source's panning gains are zero except on the loudspeakers of one valid triangle containing its direction, non-negative up to rounding tolerance, of unit norm (in the requested norm) times the distance compensation of each loudspeaker, and with that compensation removed they weight the loudspeaker positions to a vector pointing to the source, so that a source at a loudspeaker drives only that loudspeaker. Energy-based panning returns the square roots of the same gains with negative ones set to zero, scaled to unit norm. A source outside all valid triangles gets all-zero gains; if retention is requested the source is panned on the layout extended by its imaginary loudspeakers and their gains are dropped; rows follow the source order and each row depends on its own source only.",
["inputs","configurations"],"every source direction and radius, every layout with any number of loudspeakers and faces, every subset of valid triangles, every norm and retain option",
"Tests pan a few sources on two fixed layouts; the search over triangles, scatter of three gains and normalisation must hold for all layouts, including sources on edges and outside.",
["spaudiopy/decoder.py"],[("vbap, vbip, _vbap_gains_single_source, _invert_triplets","spaudiopy/decoder.py")],["returned gain matrix"])

p("C12","Panning results do not depend on call history",
"For every loudspeaker setup, the gains returned by any panning or decoding call are a function of the current layout, its current set of valid triangles and the call's arguments only: no earlier call with other sources, another triangle selection, another option, or on a copied setup, and no earlier removal of triangles, changes a later result. Repeating a call returns the same result.",
["histories"],"every sequence of triangle removals, decoder preparation, panning calls with any valid-triangle selection, and copies",
"Tests build a fresh setup and call each renderer once or twice in one fixed order; a cached intermediate that goes stale needs a specific sequence.",
["spaudiopy/decoder.py"],[("cached inverse triangle bases","spaudiopy/decoder.py:vbap"),("pop_triangles, ambisonics_setup, characteristic_ambisonic_order (copy)","spaudiopy/decoder.py")],["gains returned by vbap/vbip/allrap/allrad"],
[("inverted triangle bases attached to the setup","cache keyed on nothing","decoder.vbap")])

p("C13","All-round decoding is linear, consistent with all-round panning, and complete",
"For every prepared layout and order, decoding the encoding of a source by all-round ambisonic decoding gives the same loudspeaker signals as all-round ambisonic panning of that source; decoding is linear, treats each sample alone, and rejects coefficients of another order than the chosen one. Imaginary loudspeakers never appear in the output: every result has exactly one column or row per real loudspeaker, in the layout's order. The energy-preserving panning variant returns non-negative gains, whose total energy is one for every direction when all loudspeakers are real and at unit distance.",
["inputs","configurations"],"every layout and kernel, every order up to the kernel's, every source direction, every coefficient signal",
"Tests compare a few decoders on two layouts; the consistency is an algebraic identity over all kernels, orders and signals.",
["spaudiopy/decoder.py"],[("allrap, allrad, allrap2, allrad2","spaudiopy/decoder.py"),("ambisonics_setup","spaudiopy/decoder.py")],["loudspeaker gains / signals"])

p("C14","Sampling, mode-matching and energy-preserving decoders satisfy their design law",
"For every layout, order and coefficient signal: sampling decoding evaluates the encoded function at the loudspeaker directions with one common scale, mode-matching decoding re-encodes to the scaled input whenever the layout supports the order, and energy-preserving decoding yields the same total loudspeaker energy from every direction whenever there are at least as many loudspeakers as harmonics. All three are linear, produce one channel per real loudspeaker in layout order, treat each time sample alone, and ignore coefficients above the chosen order.",
["inputs","configurations"],"every layout, every order, every coefficient matrix with any number of samples",
"Tests check a few layouts at one order; the laws are identities over all layouts satisfying the rank condition.",
["spaudiopy/decoder.py"],[("sad, mad, epad","spaudiopy/decoder.py")],["loudspeaker signals"])

p("C15","Parallel execution gives the serial result for every job count and schedule",
"For every function that can distribute its work over processes, the result for any job count, any chunking and any interleaving of the workers equals the serial result, because each work item writes only cells no other item writes, or adds to shared cells only while holding the lock, and reads only inputs no item writes. Automatic job-count selection does not change results either.",
["schedules","inputs","configurations"],"every number of jobs, every interleaving of worker steps, every input",
"Tests run a few job counts on one machine; a race or a wrong cell partition needs a particular interleaving, input length or job count.",
["spaudiopy/decoder.py","spaudiopy/parsa.py","spaudiopy/process.py","spaudiopy/io.py"],[("vbap worker + shared array","spaudiopy/decoder.py"),("pseudo_intensity, render_bsdm workers + lock","spaudiopy/parsa.py"),("resample_hrirs","spaudiopy/process.py")],["results for jobs_count None/1/k"],
[("shared result array","written by workers","decoder.vbap, parsa.pseudo_intensity, parsa.render_bsdm")])

p("C16","Library calls never modify the caller's data",
"No public function or constructor writes to an array, list or dictionary that the caller passed in, and no call changes a default argument value seen by later calls: after any call the caller's objects compare equal to what they were. Stateful objects (signal containers, loudspeaker setups, head-related impulse response sets) change only through their own methods, and changing one that was made by its copy operation leaves the original unchanged.",
["inputs","histories"],"every public function, every argument of every layout (views, slices, Fortran order, integer or float data), every call sequence",
"Tests never compare arguments before and after; aliasing through views depends on the argument's dtype and layout.",
["spaudiopy/utils.py","spaudiopy/sph.py","spaudiopy/decoder.py","spaudiopy/process.py","spaudiopy/parsa.py","spaudiopy/io.py","spaudiopy/sig.py","spaudiopy/grids.py","spaudiopy/plot.py"],[("in-place operations on views returned by asarray_1d/squeeze/asarray/transpose/slicing","all modules"),("LoudspeakerSetup constructor centring","spaudiopy/decoder.py")],["caller's argument objects"])

p("C17","Signal containers stay consistent under every sequence of operations",
"A multi-channel signal always has as many channels as signals given, in order and all of its own sampling rate, and stays so through any sequence of trimming, filtering, replacing, resampling and copying; each operation acts on every channel as the single-channel operation does, and trimming keeps exactly the requested samples. The named W, X, Y, Z channels of a B-format signal always are its current four channels, and converting from harmonics signals yields the converted channels.",
["histories","inputs"],"every sequence of container operations on every set of signals",
"Tests construct containers once; stale derived attributes appear only after particular operation sequences.",
["spaudiopy/sig.py"],[("MonoSignal, MultiSignal, AmbiBSignal, HRIRs methods","spaudiopy/sig.py"),("trim_audio","spaudiopy/sig.py")],["container attributes after each operation"],
[("W/X/Y/Z","aliases of the channel list","sig.AmbiBSignal"),("channel count","must equal length of the list","sig.MultiSignal")])

p("C18","Saving and loading layouts and audio is lossless and rejects mismatches",
"For every loudspeaker setup, writing the layout and loading it returns the same loudspeaker positions (to the two decimals the file stores) and the same real/imaginary assignment in the same order, with every loudspeaker's gain attached to the loudspeaker it was defined for. Saving a mono or multichannel signal and loading it returns the same samples, channels and sampling rate up to the file format's resolution, several mono files load as one signal in the order given, and a sampling rate contradicting the signal object's own, or requested for loading but not the file's, is rejected.",
["inputs","histories"],"every layout with imaginary loudspeakers at any position, every listener position, every signal and rate",
"Tests round-trip one layout; permutations of real/imaginary loudspeakers and rate mismatches are not sampled.",
["spaudiopy/io.py"],[("save_layout, load_layout, save_audio, load_audio","spaudiopy/io.py")],["reloaded objects"])

p("C19","Fractional-octave filterbank sums to unity over the whole spectrum",
"For every valid bandwidth, sampling rate, transform length, frequency range and overlap, the squared band gains of the energy mode, and the gains of the amplitude mode, sum to exactly one at every frequency bin, all gains lie in [0, 1], and at most two adjacent bands are active at any bin; the band edges returned are adjacent and increasing from zero to the Nyquist frequency. Smoothing a real spectrum over fractional octaves keeps its length, leaves constants unchanged and stays within the range of the data.",
["inputs","configurations"],"every bandwidth, rate, length, frequency limits and overlap in the documented domain, including ranges reaching the Nyquist frequency",
"Tests do not cover it; off-by-one bin errors or overlaps at band edges appear only for particular lengths and frequencies.",
["spaudiopy/process.py"],[("frac_octave_filterbank","spaudiopy/process.py"),("frac_octave_smoothing","spaudiopy/process.py")],["returned gains"])

p("C20","Binaural rendering is the superposition of head-related convolutions",
"Rendering any loudspeaker signals binaurally equals the sum over loudspeakers of each signal, scaled by its distance attenuation, convolved with the impulse responses nearest to that loudspeaker's direction relative to the listener orientation, skipping only signals that are inaudibly small; rendering harmonics signals equals the sum over channels of convolutions for every order and filter length. Sample-wise direction rendering adds, for every sample, that sample times the response of its direction at its own time position. Results have full convolution length, are linear in the signals, and binaural room responses for 360 head rotations are stored as interleaved left/right pairs in rotation order without clipping.",
["inputs","configurations"],"every number of loudspeakers, samples, taps, orders, orientations and response sets",
"Tests render one setup; lengths, channel order, distance and orientation handling must hold for all sizes including a single channel or tap.",
["spaudiopy/decoder.py","spaudiopy/parsa.py","spaudiopy/io.py","spaudiopy/utils.py"],[("LoudspeakerSetup.binauralize, loudspeaker_signals, sh2bin","spaudiopy/decoder.py"),("render_bsdm, render_stereo_sdm, render_binaural_loudspeaker_sdm","spaudiopy/parsa.py"),("write_ssr_brirs_loudspeaker, write_ssr_brirs_sdm","spaudiopy/io.py"),("interleave_channels","spaudiopy/utils.py")],["rendered ear signals / written files"])

p("C21","Layout preparation only removes triangles, keeps geometry and points outward",
"For every convex layout containing the listener, every face normal kept points away from the listener, areas, centroids and normals correspond to their faces, and refining the triangulation by normal, aperture, opening or blacklist criteria only ever removes faces: exactly those violating a given limit, never altering the remaining ones. Sorting face vertices keeps each face's vertex set, a listener offset shifts all positions by exactly that offset, and adding imaginary loudspeakers keeps all real ones in place and marks only the new ones.",
["inputs","configurations"],"every layout, every limit, every blacklist, every listener position inside the hull",
"Tests use two layouts with default limits; per-face selection logic must be right for all limits and layouts.",
["spaudiopy/decoder.py"],[("LoudspeakerSetup.__init__, pop_triangles, is_simplex_valid, ambisonics_setup","spaudiopy/decoder.py"),("check_normals, check_aperture, check_opening, apply_blacklist, sort_vertices, calculate_*, find_imaginary_loudspeaker, check_listener_inside","spaudiopy/decoder.py")],["valid faces, normals, centroids"])

p("C22","Sampling grids are exact quadratures of the requested degree",
"For every order or degree offered, each grid returned has directions inside the azimuth/zenith ranges or unit-norm vectors, as many weights as directions, and weights summing to 4 pi where weights are supplied for the sphere (to one for the circle); product grids integrate every harmonic up to their stated degree exactly. A stored design whose exact degree is not available is replaced by one of at least the requested degree, never by a smaller one, and an unavailable degree is reported.",
["inputs","configurations"],"every order and degree within the supported range",
"Tests load one grid; each order selects another table or computes another product grid.",
["spaudiopy/grids.py"],[("load_t_design, load_n_design, load_lebedev, load_Fliege_Maier_nodes, load_maxDet","spaudiopy/grids.py"),("gauss, equal_angle, equal_polar_angle, calculate_grid_weights","spaudiopy/grids.py")],["returned directions and weights"])

p("C23","Signal-processing helpers satisfy their defining identities",
"For every order and delay, fractional-delay filter taps sum to one and an integer delay gives a unit impulse at that delay; tapering windows and pulsed noise have exactly the promised lengths, with fade, pause and repetition in the promised places and no sample lost for odd lengths. Gain limiting leaves gains up to the threshold unchanged, never exceeds twice the threshold, never changes the sign, is monotonic and continuous; loudness matching gives the target level for any non-silent signal unless the unit peak limit applies; channel interleaving keeps all samples in place; energy decay never rises; RMS is non-negative and scales with the signal. Interaural level and time differences are antisymmetric under exchanging the ears, and zero for equal ears.",
["inputs"],"every filter order, delay, gain, threshold, duration (odd or even), signal",
"Tests cover few of these functions at single values; odd lengths, integer delays, boundary gains and edge cases are universally quantified.",
["spaudiopy/process.py","spaudiopy/utils.py"],[("lagrange_delay, half_sided_Hann, pulsed_noise, gain_clipping, match_loudness, energy_decay, ilds_from_hrirs, itds_from_hrirs, subband_levels","spaudiopy/process.py"),("rms, stack, interleave_channels","spaudiopy/utils.py")],["returned arrays"])

p("C24","Magnitude-least-squares binaural filters keep length and low-frequency behaviour",
"For every order, transition frequency, phase continuation, delay and number of taps (odd or even, short or long), the designed binaural decoder has one filter per ear and harmonic with as many taps as the input responses, equals the plain least-squares fit of the responses below the transition frequency up to the final time-domain taper, and is real. Above the transition only the phase of the fitted target changes: its magnitude is the magnitude of the responses at each direction. Left and right are designed independently, so exchanging ears exchanges filters.",
["inputs","configurations"],"every order, response set, length, transition frequency and option",
"Tests do not check it; odd lengths and short responses are never used.",
["spaudiopy/decoder.py"],[("magls_bin","spaudiopy/decoder.py")],["returned filters"])

p("C25","Nearest-direction lookup returns the closest entry for every query",
"For every query direction, the nearest head-related impulse response or loudspeaker returned has an angular distance no larger than that of any other entry, the pair returned is the left and right response stored for exactly that entry, and many queries give the same as one query at a time, in order. Updating the stored responses keeps directions, count and length consistent, and sizes that do not match the grid are rejected.",
["inputs"],"every grid of directions, every query, any number of queries",
"Tests look up a few directions; wrap-around at the azimuth seam and at the poles is not sampled.",
["spaudiopy/sig.py","spaudiopy/decoder.py"],[("HRIRs.nearest_idx, nearest_hrirs, update_hrirs, __getitem__","spaudiopy/sig.py"),("nearest_loudspeaker","spaudiopy/decoder.py")],["returned index / responses"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
