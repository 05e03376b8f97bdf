"""per property: (level, technique, note) for MANIFEST.json"""
T = 'deductive verification of the real source: symbolic execution under NumPy/SciPy contracts, obligations by normaliser + z3'
R = ' The executable contracts are also evaluated on the real code (bounded; search for failing inputs, not counted as proved).'
X = 'Real numbers instead of floating point; NumPy/SciPy by assumed contracts (listed in the evidence).'
P = lambda what, tech=T: ('proof', tech, what + ' ' + X + R)
O = lambda what, tech=T: ('exploration', tech, what + ' ' + X + R)
LEVELS = {
 'C01': P('Every conversion and its inverse for all points and any number of them; origin and poles included.'),
 'C02': P('All angles, axes of any length, all accepted vector pairs; pairs closer than 1e-9 rad are mapped by the identity.'),
 'C03': P('All vectors, translations, scalings and numbers of rows; arccos stays in its domain whatever rounding does.'),
 'C04': P('Column order, conventions, prefix, row locality for symbolic order and number of directions. The addition theorem '
          'only for N <= 3 (bounded): it is a fact of the harmonics, not of the code.'),
 'C05': P('Round trips for symbolic order, grid and signals under the exactness hypothesis of the grid; lstsq by contract.'),
 'C06': O('BOUNDED proof: the encode/rotate identity for all angles and directions, orders 0 to 3; orthogonality and blocks N <= 2. '
          'rotate_sh and rejections for every order. Higher orders (to 12) by runtime contracts only.'),
 'C07': P('Scaling for every order, axis and size; first-order conversions for every weight and number of samples.'),
 'C08': P('Unit response for every order (cardioid by telescoping); the closed cardioid pattern N <= 8 and the steered response '
          'N <= 3 are bounded.'),
 'C09': P('Every number of channels; inverse and eigendecomposition by contract.'),
 'C10': P('Every order, weights and number of sectors under the exactness hypothesis of the layout, both conventions, three modes.'),
 'C11': P('Every number of sources, loudspeakers and triangles (search loop summarised); norms default, 1, 2, 3 with exponents '
          '0, 1, 2 as listed. Qhull outside: the layout is any object with points, distances and valid triangles.'),
 'C12': P('Histories of calls, copies and setup changes against a fresh setup, for layouts of any size; ConvexHull by contract.'),
 'C13': P('Symbolic order, layout and kernel; decoding of an encoded source = panning of it; rejections; tail of imaginary ones.'),
 'C14': P('Symbolic order and layout; pinv and svd by contract.'),
 'C15': P('Every chunking and interleaving through a per-item ownership argument (disjoint writes or locked accumulation) on the '
          'real worker functions; fork start method and multiprocessing primitives by contract.',
          'deductive verification: ownership of shared cells per work item on the real workers, then equality with the serial result'),
 'C16': P('Every function of the modules, flow-insensitive: no statement writes an object reachable from an argument or default, '
          'inter-procedurally, from the current source. Library calls by contract (views, mutators, out=).',
          'frame conditions by an inter-procedural effect verifier over the real source'),
 'C17': P('Any number of channels, samples, rate and arguments; every operation keeps the class invariant (lists of objects symbolic).'),
 'C18': P('Any number of loudspeakers, channels and files; soundfile, json and open by contract.'),
 'C19': P('Every bandwidth with r^2 <= 2 (n >= 1), rate, length, range and overlap <= 1/2; windows and telescoping.'),
 'C20': P('Any number of channels, loudspeakers, samples and taps; nearest_hrirs by the contract C25 proves.'),
 'C21': P('Any number of points and faces; scipy ConvexHull by contract (C21 in DESIGN.md); blacklists of up to three vertices.'),
 'C22': P('Product grids for every n by Lean theorems about the weights and angles the code computes; stored grids: selection logic '
          'proved for every degree, the tables themselves are checked numerically degree by degree (complete enumeration, bounded in '
          'precision).', 'deductive verification of the real source; quadrature exactness by Lean (Mathlib)'),
 'C23': P('Symbolic order, delay, length and gains (tap sum by a Lean lemma); pulsed noise for one to three repetitions, '
          'polynomial reproduction N <= 6 (bounded).'),
 'C24': P('Every order, transition bin, number of directions and taps; pinv, angle and sh_matrix may be any functions.'),
 'C25': P('Any grid and queries; any number of loudspeakers and sources.'),
}
