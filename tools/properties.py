"""Source of properties.jsonl and MANIFEST.json (run tools/generate.py)."""

# id, title, statement, over, quantifier, why tests can't, files, mechanism
# (name, where), technique, level note
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique,
         note, state=None, observe=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  quant=quant, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state or [],
                  observe=observe or []))


prop('C01', 'Spherical harmonics are the documented orthonormal functions',
     'For every order and every direction (poles and any azimuth period '
     'included) the evaluated spherical harmonics are the orthonormal real '
     '(no Condon-Shortley phase) or complex functions in ACN order. They '
     'fulfil the addition theorem, are orthonormal over the sphere, and a '
     'single direction gives the same row as the same direction within any '
     'batch.',
     ['inputs'], 'orders 0..45, sets of 1..8 directions, both SH types',
     'reference.mat holds one order and one direction set per SH type; '
     'unit tests sample a few directions',
     ['spaudiopy/sph.py'],
     [('sh_matrix', 'spaudiopy/sph.py:sh_matrix')],
     'property-based testing against an independent recurrence model of the '
     'SHs, and against the addition theorem and own quadrature',
     'Random and special directions and orders; no claim above order 45 and '
     'to about 1e-6 near the poles.')

prop('C02', 'Spherical harmonic transforms invert each other',
     'On a sampling that can carry the order, the transform of the inverse '
     'transform returns the coefficients, energy is preserved, and a '
     'transform to a lower order returns the truncated coefficients. The '
     'least squares transform returns the minimiser of the squared error for '
     'any data and sampling it determines, and all transforms are linear and '
     'treat every column of the data independently.',
     ['inputs'], 'orders 0..11, real and complex SHs, 1..4 (or as many as '
     'points) columns, designs, '
     'product grids and random point sets, with and without weights or a '
     'given SH matrix',
     'the tests transform one function on one grid',
     ['spaudiopy/sph.py'],
     [('sht', 'spaudiopy/sph.py:sht'),
      ('inverse_sht', 'spaudiopy/sph.py:inverse_sht'),
      ('sht_lstsq', 'spaudiopy/sph.py:sht_lstsq')],
     'property-based testing: round trip, Parseval, normal equations, '
     'linearity', 'Generated samplings and coefficients; trusts numpy.')

prop('C03', 'Sampling grids lie on the sphere and integrate exactly',
     'Every grid delivers unit vectors or angles on the sphere, with weights '
     'where documented, that integrate all spherical harmonics exactly up to '
     'the degree it promises (equal weights for designs). Grids that are '
     'generated for a given order do so for every order, quadrature weights '
     'calculated for a point set do so up to the order the set supports, and '
     'a degree that is not available is rejected.',
     ['inputs', 'configurations'], 'all shipped t-designs, n-designs, Lebedev '
     'and Fliege-Maier grids, generated equal angle / Gauss / circle grids, '
     'and weights computed for random point sets',
     'the tests look at a few degrees',
     ['spaudiopy/grids.py'],
     [('calculate_grid_weights', 'spaudiopy/grids.py'),
      ('load_*', 'spaudiopy/grids.py'),
      ('equal_angle, gauss, equal_polar_angle', 'spaudiopy/grids.py')],
     'generated enumeration of grids against spherical moments',
     'Tolerances per grid family as in the shipped data (t-designs 2.5e-5); '
     'maxDet data is not part of this tree.')

prop('C04', 'Rotating an SH signal rotates the sound field',
     'For all angles, a plane wave encoded from any direction and then '
     'rotated equals the plane wave encoded from the rotated direction (yaw, '
     'pitch and roll composed as in the rotation matrix of the package). The '
     'rotation is orthogonal, never mixes orders, composes like the 3x3 '
     'rotations, applies along the last axis of any array, and is refused '
     'for complex SHs or incomplete orders.',
     ['inputs'], 'orders 0..12, arbitrary yaw, pitch, roll',
     'one reference matrix in the tests',
     ['spaudiopy/sph.py'],
     [('sh_rotation_matrix', 'spaudiopy/sph.py:sh_rotation_matrix'),
      ('rotate_sh', 'spaudiopy/sph.py:rotate_sh')],
     'property-based testing against the independently rotated directions '
     '(metamorphic)', 'Angles random and special; tolerance 1e-7.')

prop('C05', 'SH products and sector beamformers are pointwise products',
     'The product of two SH coefficient vectors holds the coefficients of '
     'the pointwise product of the two functions, at the sum of their '
     'orders, for real and complex SHs. The sector beamformer of any beam '
     'matrix has, per beam, the pattern itself and the pattern times the x, '
     'y and z direction cosine, so that a single plane wave gives a sector '
     'intensity pointing at the wave.',
     ['inputs'], 'orders 0..10 (sum of both up to 10), real and complex '
     'coefficients, 1..9 beams of order 0..9',
     'one product is tested',
     ['spaudiopy/sph.py', 'spaudiopy/parsa.py'],
     [('sh_mult', 'spaudiopy/sph.py:sh_mult'),
      ('sh_sector_beamformer', 'spaudiopy/parsa.py:sh_sector_beamformer')],
     'property-based testing against own quadrature of the product',
     'Accuracy limited to that of the t-design used (about 1e-4).')

prop('C06', 'Ambisonic channel formats convert consistently',
     'N3D to SN3D divides order n by sqrt(2n+1) along the chosen axis and '
     'back restores the input. Plane waves encoded to SHs, B-format, or '
     'derived from A-format or SH signals give W and the x, y, z components '
     'in the documented order and weighting, B-format and SH conversions '
     'undo each other, and the stereo downmix of B-format is the documented '
     'pair of beams.',
     ['inputs'], 'sets of 1..5 directions and signals, orders 0..7, list and '
     'array input, W weights',
     'the tests convert one or two signals',
     ['spaudiopy/sph.py', 'spaudiopy/process.py', 'spaudiopy/sig.py'],
     [('n3d_to_sn3d, sn3d_to_n3d', 'spaudiopy/sph.py'),
      ('sh_to_b, b_to_sh, soundfield_to_b, src_to_b, src_to_sh',
       'spaudiopy/sph.py'),
      ('ambeo_a2b, b_to_stereo', 'spaudiopy/process.py')],
     'property-based testing: round trips and plane wave oracle',
     'Random signals and directions.')

prop('C07', 'Beam patterns have the documented shape and optimality',
     'A beamformer of a named pattern steered anywhere picks up a plane wave '
     'with that pattern: unit gain on axis, cardioid power, maximum '
     'directivity or max-rE shape over the angle, and custom modal weights '
     'give their own pattern. Per-order weights are spread over the 2n+1 '
     'channels of each order, and the energy vector of gains is the energy '
     'weighted mean position, with zero magnitude for silence.',
     ['inputs'], 'orders 0..25 (weights 0..40), all steering and source directions, random '
     'competing modal weights, gain matrices with silent rows',
     'nothing on patterns is tested beyond one filterbank',
     ['spaudiopy/sph.py', 'spaudiopy/parsa.py'],
     [('*_modal_weights, unity_gain, bandlimited_dirac, max_rE_weights, r_E',
       'spaudiopy/sph.py'),
      ('sh_beamformer_from_pattern, sh_beamform', 'spaudiopy/parsa.py')],
     'property-based testing against closed forms and by search for better '
     'weights', 'max-rE only to the accuracy of its approximation formula.')

prop('C08', 'Spherical filter banks reconstruct the sound field',
     'With the perfect reconstruction design, resynthesis after analysis is '
     'the identity for every input up to the design order; with the energy '
     'design the summed energy of the sectors is one for every direction; '
     'with the pseudo-inverse design the identity holds on any sector set '
     'that carries the order. The reconstruction factors restore unit '
     'amplitude or unit energy of the summed sectors.',
     ['inputs', 'configurations'], 'orders 0..12, all patterns, sector sets '
     'from designs and random',
     'the tests check three designs for one or two orders',
     ['spaudiopy/sph.py'],
     [('design_sph_filterbank', 'spaudiopy/sph.py:design_sph_filterbank'),
      ('sph_filterbank_reconstruction_factor', 'spaudiopy/sph.py')],
     'property-based testing: round trip and energy invariants',
     'Sector layouts are designs for the required degree.')

prop('C09', 'Adaptive beamformers meet constraints at minimum power',
     'Minimum variance beamformers pass every steering direction with unit '
     'gain, and linearly constrained ones meet all given gains exactly, at '
     'the least output power of all weights that do so. Covariance '
     'separation returns symmetric positive semidefinite parts that sum to '
     'the input, with the requested rank and a flattened noise spectrum, '
     'MUSIC peaks at the directions of sources in white noise, and '
     'the source count of such a sound field is found.',
     ['inputs'], 'orders 0..7, random real covariances and scenes of 1..4 '
     'sources, arbitrary steering directions and constraint gains',
     'nothing of this is tested',
     ['spaudiopy/parsa.py'],
     [('sh_mvdr, sh_lcmv, sh_music, separate_cov, estimate_num_sources',
       'spaudiopy/parsa.py')],
     'property-based testing against the optimality conditions and random '
     'competitors', 'Real covariances of condition up to 1e6.')

prop('C10', 'Pseudo intensity points at the source',
     'For a single plane wave from any direction, every sample that the '
     'analysis window covers and that carries signal is assigned the '
     'direction of the wave, with and without band limit, smoothing or '
     'parallel jobs. The intensity is the windowed product of pressure and '
     'velocity signals, scales with the square of the level, and samples '
     'that no window covers have zero intensity.',
     ['inputs', 'configurations'], 'signals of 20..900 samples, window '
     'lengths, smoothing orders, bandpass settings, job counts',
     'the tests compare one signal between serial and parallel',
     ['spaudiopy/parsa.py'],
     [('pseudo_intensity', 'spaudiopy/parsa.py:pseudo_intensity')],
     'property-based testing: plane wave oracle and sample-wise reference '
     'model', 'Noise and impulse signals.')

prop('C11', 'The number of parallel jobs never changes a result',
     'Every function that can run in parallel returns the same result, or '
     'writes the same file, for any number of jobs, including more jobs than '
     'items and all cores. This holds for repeated calls with different '
     'sizes in the same process.',
     ['inputs', 'configurations', 'schedules'], 'job counts 1..9 and None, '
     'problem sizes 1..333, sequences of calls',
     'test_parallel compares one problem with one job count',
     ['spaudiopy/decoder.py', 'spaudiopy/parsa.py', 'spaudiopy/process.py',
      'spaudiopy/io.py'],
     [('vbap, allrap, allrap2, allrad, allrad2', 'spaudiopy/decoder.py'),
      ('pseudo_intensity, render_bsdm', 'spaudiopy/parsa.py'),
      ('resample_hrirs', 'spaudiopy/process.py'),
      ('write_ssr_brirs_loudspeaker', 'spaudiopy/io.py')],
     'differential property-based testing of job counts',
     'The operating system schedules the workers; schedules are sampled.',
     state=[dict(name='shared_array', meaning='result buffer of the worker '
                 'processes', where='decoder.py, parsa.py, process.py')])

prop('C12', 'Coordinates, rotations and angles agree with geometry',
     'Cartesian and spherical coordinates convert back and forth for all '
     'directions and radii in the documented conventions, and angles, great '
     'circle distances, triangle areas and rotation matrices equal their '
     'geometric definitions, for coincident, opposite, polar and nearly '
     'parallel vectors too. Rotation matrices are proper rotations and map '
     'what they are defined to map.',
     ['inputs'], 'vectors, angles and point sets, with special values and '
     'near-degenerate pairs, scalars and arrays',
     'the tests check a handful of values',
     ['spaudiopy/utils.py'],
     [('cart2sph, sph2cart, vec2dir, angle_between, rotation_*, haversine, '
       'area_triangle', 'spaudiopy/utils.py')],
     'property-based testing: round trips and high-accuracy formulas',
     'Accuracy near degeneracy limited to sqrt(eps).')

prop('C13', 'Loudspeaker setups describe the geometry of the layout',
     'For every layout, whatever radii and listener position, the hull is '
     'closed, its faces, centroids, areas, normals (outwards), barycenter '
     'and the distances and directions seen from the listener equal their '
     'geometric definitions. Removing triangles removes exactly those that '
     'exceed a limit or are blacklisted and keeps the remaining per-face '
     'data aligned, and an imaginary loudspeaker is proposed only where the '
     'hull is open.',
     ['inputs', 'configurations'], 'random layouts of 4..64 loudspeakers, '
     'rings, domes, shipped layouts, listener offsets, limit combinations',
     'the tests use two layouts',
     ['spaudiopy/decoder.py'],
     [('LoudspeakerSetup, calculate_*, check_*, apply_blacklist, '
       'find_imaginary_loudspeaker', 'spaudiopy/decoder.py')],
     'property-based testing against own geometry of the hull',
     'Layouts without nearly degenerate faces.')

prop('C14', 'VBAP reproduces every direction with at most three loudspeakers',
     'For every direction inside the valid hull the gains are non-negative, '
     'at most three are active (the corners of one face), the gain weighted '
     'sum of loudspeaker directions points at the source, and the gains have '
     'the requested norm including the distance compensation of the layout. '
     'VBIP does the same for the energy vector, and directions outside all '
     'valid faces are silent unless the original gains are to be kept.',
     ['inputs', 'configurations'], 'random and shipped layouts, 1..12 '
     'source directions (also at loudspeakers, on edges, at the poles), '
     'norms, valid simplex subsets, listener offsets',
     'the tests pan a few sources on two layouts',
     ['spaudiopy/decoder.py'],
     [('vbap, vbip', 'spaudiopy/decoder.py'),
      ('_vbap_gains_single_source', 'spaudiopy/decoder.py')],
     'property-based testing: validity predicate over the gains',
     'Sources within 1e-6 of the border of the valid hull are not judged.')

prop('C15', 'Panning does not depend on the call history of a setup',
     'On one loudspeaker setup, any sequence of panning calls, subsets of '
     'faces, removal of triangles, kernel setups and distance exponent '
     'changes gives the same gains as the same call on a fresh setup brought '
     'to the same state. No call changes the coordinates, listener position '
     'or hull of the setup.',
     ['histories', 'inputs'], 'sequences of up to 10 operations on random '
     'layouts',
     'tests call each function once or twice per setup',
     ['spaudiopy/decoder.py'],
     [('vbap, allrap, allrad, sad, mad, epad, LoudspeakerSetup',
       'spaudiopy/decoder.py')],
     'stateful (model based) testing: differential against a fresh object',
     'Sequences are sampled.',
     state=[dict(name='inverse loudspeaker bases', meaning='cache of the '
                 'last panning call', where='decoder.py:vbap')])

prop('C16', 'AllRAP and AllRAD are loudspeaker-sampled panning kernels',
     'All-round Ambisonic panning and decoding follow the reference model: '
     'VBAP onto the kernel of virtual sources, weighted by the max-rE '
     'panning function, with imaginary loudspeakers removed. Decoding a '
     'plane wave with AllRAD equals AllRAP panning, AllRAD2 decodes with the '
     'SH transform of the AllRAP2 panning function, decoding is linear, and '
     'on closed layouts of unit radius the total energy of AllRAP2 is '
     'constant over all directions.',
     ['inputs', 'configurations'], 'random, shipped and dome layouts with '
     'imaginary loudspeakers, orders 1..12, kernel orders 1..13, any number of '
     'sources and samples',
     'the tests decode a few signals with fixed order',
     ['spaudiopy/decoder.py'],
     [('ambisonics_setup, allrap, allrap2, allrad, allrad2',
       'spaudiopy/decoder.py')],
     'property-based testing against a reference model',
     'Kernel of at most a few hundred virtual sources.')

prop('C17', 'SAD, MAD and EPAD have their defining energy relations',
     'EPAD preserves the energy of every SH signal up to the order, mode '
     'matching reproduces every SH signal up to the documented factor '
     'wherever the layout can carry the order, and sampling decoding is the '
     'projection onto the loudspeaker directions; all are linear and equal '
     'their reference model on any layout. On t-designs of sufficient degree '
     'all three have unit energy for plane waves in every direction.',
     ['inputs', 'configurations'], 'random layouts and t-designs, orders '
     '0..7, matrices of signals',
     'the tests check one layout',
     ['spaudiopy/decoder.py'],
     [('sad, mad, epad', 'spaudiopy/decoder.py')],
     'property-based testing against defining equations',
     'Layouts of condition up to 1e4.')

prop('C18', 'Nearest loudspeaker and nearest HRIR are the nearest ones',
     'For every direction, scalar or batch, the selected loudspeaker or HRIR '
     'has the smallest angular distance of all, whatever the azimuth period, '
     'order of the grid or listener position. The loudspeaker gain matrix '
     'has a single active loudspeaker per source, with unit gain times its '
     'distance compensation.',
     ['inputs'], 'random grids and layouts, directions near the azimuth '
     'wrap and the poles',
     'the tests look up one or two directions',
     ['spaudiopy/decoder.py', 'spaudiopy/sig.py'],
     [('nearest_loudspeaker', 'spaudiopy/decoder.py'),
      ('HRIRs.nearest_idx, nearest_hrirs', 'spaudiopy/sig.py')],
     'property-based testing against exhaustive search',
     'Ties within 1e-6 rad may be broken either way.')

prop('C19', 'Binaural renderers are sums of convolutions with nearest HRIRs',
     'Binauralizing loudspeaker signals gives, per ear, the sum over all '
     'loudspeakers of the signal convolved with the HRIR nearest to the '
     'loudspeaker direction as seen from the (rotated) listener; only '
     'inaudible loudspeakers may be left out. SH-domain, SDM and BRIR file '
     'renderers equal the same kind of model, so they are linear in the '
     'input and left/right symmetric with the HRIRs.',
     ['inputs', 'configurations'], 'layouts, signals of 1..60 samples, '
     'orientations, random HRIR sets, SH orders',
     'the tests check shapes for one layout',
     ['spaudiopy/decoder.py', 'spaudiopy/parsa.py', 'spaudiopy/io.py'],
     [('LoudspeakerSetup.binauralize, loudspeaker_signals, sh2bin',
       'spaudiopy/decoder.py'),
      ('render_bsdm, render_stereo_sdm, render_binaural_loudspeaker_sdm',
       'spaudiopy/parsa.py'),
      ('write_ssr_brirs_*', 'spaudiopy/io.py')],
     'property-based testing against a direct reference model',
     'Random HRIRs; BRIR files read back.')

prop('C20', 'Magnitude least squares filters follow their definition',
     'Binaural decoding filters equal the least squares fit of the HRIR '
     'spectra below the transition frequency and the magnitude fit with '
     'continued phase above, for any HRIR set, length, order, transition '
     'frequency and continuation. They have the documented shape, are real, '
     'scale with the HRIRs, and swapping the ears swaps the '
     'filters.',
     ['inputs', 'configurations'], 'random and spherical-head-like HRIR '
     'sets, odd and even lengths of 32..4097 taps, orders 1..6',
     'the tests build one set of filters',
     ['spaudiopy/decoder.py'],
     [('magls_bin', 'spaudiopy/decoder.py:magls_bin')],
     'property-based testing against a reference model and metamorphic '
     'relations', 'Reference model written from the documented method.')

prop('C21', 'Signal containers behave like arrays of channels with a rate',
     'Under any sequence of trimming, convolving, resampling, applying '
     'functions, copying and indexing, a signal object holds the samples '
     'that the same operations on plain arrays give, with consistent length, '
     'channel count and sampling rate on every channel. Copies are '
     'independent of the original, and B-format accessors read and write '
     'their channel.',
     ['histories', 'inputs'], 'sequences of up to 8 operations on signals of '
     '1..5 channels',
     'the tests call few methods once',
     ['spaudiopy/sig.py'],
     [('MonoSignal, MultiSignal, AmbiBSignal, HRIRs, trim_audio',
       'spaudiopy/sig.py')],
     'stateful testing against a numpy model',
     'Start and stop times on sample positions.',
     state=[dict(name='channel', meaning='list of mono signals',
                 where='sig.py:MultiSignal')])

prop('C22', 'Audio files round trip',
     'Saving any signal object or array and loading it again returns the '
     'samples (exactly for float, to the resolution of the subtype for '
     'integer formats), the channel order and the sampling rate. Several '
     'files load as the channels of one signal in the given order. A rate '
     'that contradicts the file or the signal is refused.',
     ['inputs', 'histories'], 'signals of 1..6 channels and 1..400 samples, '
     'subtypes, rates',
     'the tests store nothing',
     ['spaudiopy/io.py', 'spaudiopy/sig.py'],
     [('load_audio, save_audio', 'spaudiopy/io.py'),
      ('from_file, save', 'spaudiopy/sig.py')],
     'property-based testing: write/read round trip', 'libsndfile is trusted.')

prop('C23', 'Loudspeaker layout files round trip',
     'A layout that is saved and loaded has the same loudspeaker positions, '
     'in the same order, gains, and imaginary loudspeakers, and so the same '
     'panning gains. Every shipped layout loads to the positions written in '
     'its file, and the listener position given on loading is honoured.',
     ['inputs', 'configurations'], 'random layouts with and without gains '
     'and imaginary loudspeakers; all shipped layouts; hand-written files',
     'one layout file is loaded in the tests',
     ['spaudiopy/io.py'],
     [('load_layout, save_layout', 'spaudiopy/io.py')],
     'property-based testing: write/read round trip and file oracle',
     'JSON values rounded as documented by the format.')

prop('C24', 'Importers deliver the contents of their files',
     'HRIR .mat files, SOFA files and SDM .mat files written with known '
     'contents are loaded as exactly these responses, directions and '
     'sampling rate in the conventions of the package. SOFA to SH conversion '
     'is the least squares SH fit of the stored responses.',
     ['inputs'], 'generated files with random responses, grids and rates',
     'no importer is tested with known contents',
     ['spaudiopy/io.py'],
     [('load_hrirs, load_sofa_data, load_sofa_hrirs, sofa_to_sh, load_sdm',
       'spaudiopy/io.py')],
     'property-based testing: generated files, known contents',
     'Files are written by h5py and scipy.')

prop('C25', 'Fractional octave filter banks and smoothing conserve',
     'The bands of a fractional octave filter bank sum to one in amplitude '
     'or energy at every frequency (also outside the band limits), for every '
     'fraction, overlap, slope and frequency range, with '
     'monotonic band edges. Smoothing preserves constants and stays within '
     'the range of the input, and band levels are energies relative to the '
     'band width.',
     ['inputs', 'configurations'], 'fractions, ranges, FFT lengths, rates, '
     'modes, overlaps; random spectra',
     'one filter bank is tested',
     ['spaudiopy/process.py'],
     [('frac_octave_filterbank, frac_octave_smoothing, subband_levels',
       'spaudiopy/process.py')],
     'property-based testing: conservation invariants',
     'Parameter ranges in which the bands do not collapse.')

prop('C26', 'Resampling preserves band-limited signals',
     'Resampling to another rate returns the documented number of samples, '
     'and sinusoids below both Nyquist frequencies keep frequency, '
     'amplitude, phase and position, per channel and along the chosen axis. '
     'Spectra resampled to another rate match the '
     'spectrum at common frequencies, equal rates return the input, and HRIR '
     'sets are resampled direction by direction, ear by ear.',
     ['inputs', 'configurations'], 'rate pairs, sinusoids, arrays of one and '
     'two dimensions, HRIR sets',
     'the tests resample one HRIR set',
     ['spaudiopy/process.py'],
     [('resample_signal, resample_spectrum, resample_hrirs',
       'spaudiopy/process.py')],
     'property-based testing: analytic sinusoid oracle and metamorphic '
     'relations', 'Accuracy limited by the interpolation filter (about 1 '
     'percent).')

prop('C27', 'Small signal tools follow their definitions',
     'Lagrange delays shift polynomials up to their order exactly, gain '
     'clipping is bounded and monotonic, energy decay is the normalised '
     'backward integral, loudness matching equalises the level, and level '
     'conversions, root mean square, channel interleaving, stacking, windows '
     'and noise pulses equal their definitions. All hold for every length, '
     'sign and axis.',
     ['inputs'], 'arrays of any size and value, orders, delays, gains',
     'single values are tested',
     ['spaudiopy/process.py', 'spaudiopy/utils.py'],
     [('lagrange_delay, gain_clipping, match_loudness, energy_decay, '
       'half_sided_Hann, pulsed_noise', 'spaudiopy/process.py'),
      ('db, from_db, rms, stack, interleave_channels, asarray_1d, test_diff',
       'spaudiopy/utils.py')],
     'property-based testing against definitions', 'Random arrays.')

prop('C28', 'Radial functions match spherical acoustics',
     'Spherical Hankel functions, the mode strength of open and rigid '
     'spheres and the pressure on a sphere equal their analytic '
     'definitions for all orders and arguments, including the Wronskian '
     'identity of the rigid sphere. The coloration compensation restores the '
     'full-order diffuse response for every order and tapering.',
     ['inputs'], 'orders 0..75, kr from 1e-2 to 150, tapers',
     'a few values are tested',
     ['spaudiopy/sph.py'],
     [('spherical_hn2, mode_strength, pressure_on_sphere, '
       'binaural_coloration_compensation', 'spaudiopy/sph.py')],
     'property-based testing against recurrences and identities',
     'Arguments where the functions are representable.')

prop('C29', 'Interaural cues and diffuse field equalisation are recovered',
     'The interaural level and time differences estimated from HRIRs are '
     'those that were built in: scaling one ear by a factor changes the '
     'level difference by that factor, delaying one ear changes the time '
     'difference by that delay, and swapping ears flips the sign. The common '
     'transfer function filter of an HRIR set, applied to it, flattens the '
     'diffuse field response.',
     ['inputs'], 'random broadband HRIR sets, gains, delays, lengths, '
     'upsampling factors and weights',
     'not tested',
     ['spaudiopy/process.py', 'spaudiopy/sig.py'],
     [('ilds_from_hrirs, itds_from_hrirs, hrirs_ctf', 'spaudiopy/process.py'),
      ('HRIRs.apply_ctf_eq', 'spaudiopy/sig.py')],
     'property-based testing: metamorphic relations',
     'Delays to the sample resolution of the upsampling.')

prop('C30', 'SDM post equalisation keeps signals aligned and linear in gain',
     'Both equalisers return signals of the input shape, scale with the '
     'input and reference level, leave silent loudspeakers silent, never '
     'exceed their gain limit, and keep an impulse at its place. The octave '
     'band gains that are reported are those that are applied.',
     ['inputs'], 'random loudspeaker signals and pressure references on '
     'random layouts',
     'not tested',
     ['spaudiopy/parsa.py'],
     [('sdm_post_equalization, sdm_post_equalization2',
       'spaudiopy/parsa.py')],
     'property-based testing: metamorphic relations',
     'Short signals on octahedral layouts: the filters are long.')

prop('C31', 'Functions leave their arguments untouched and repeat exactly',
     'No documented function changes the arrays, lists or objects it is '
     'given, and calling it a second time with equal arguments returns an '
     'equal result. This includes setups, signal objects and HRIR sets, '
     'except for the methods documented to update their object.',
     ['inputs', 'histories'], 'calls of the whole public numerical API with '
     'generated arguments, repeated and interleaved',
     'tests never look at the arguments after the call',
     ['spaudiopy/sph.py', 'spaudiopy/decoder.py', 'spaudiopy/parsa.py',
      'spaudiopy/process.py', 'spaudiopy/utils.py', 'spaudiopy/grids.py',
      'spaudiopy/plot.py', 'spaudiopy/io.py', 'spaudiopy/sig.py'],
     [('all public functions', 'spaudiopy/*.py')],
     'property-based testing of call sequences with snapshots of arguments',
     'A table of the public calls; plots are in C32.')

prop('C32', 'Plots show the data they are given',
     'Every plot draws the values of its input at their place, in the '
     'documented scale (linear or dB) and with valid limits, for any valid '
     'input size. Plots of earlier calls do not influence later ones.',
     ['inputs', 'histories'], 'all plotting functions with generated data, '
     'artists read back',
     'plots are not tested',
     ['spaudiopy/plot.py'],
     [('all functions', 'spaudiopy/plot.py')],
     'property-based testing: figure contents read back from matplotlib',
     'Contents, not appearance.')

prop('C33', 'Invalid arguments are rejected instead of giving wrong results',
     'Unknown pattern, mode or type names, sizes that do not match an '
     'Ambisonic order or each other, out of range degrees, mismatching '
     'sampling rates, and listeners outside the hull raise an error or '
     'warning as documented and never return a result.',
     ['inputs'], 'generated invalid arguments for all functions with a '
     'documented restriction',
     'few rejections are tested',
     ['spaudiopy/sph.py', 'spaudiopy/decoder.py', 'spaudiopy/grids.py',
      'spaudiopy/parsa.py', 'spaudiopy/process.py', 'spaudiopy/io.py',
      'spaudiopy/sig.py', 'spaudiopy/utils.py'],
     [('argument checks', 'spaudiopy/*.py')],
     'property-based testing with invalid arguments',
     'Only the kinds of mistakes that are generated.')

ALL = ['spaudiopy/sph.py', 'spaudiopy/decoder.py', 'spaudiopy/parsa.py',
       'spaudiopy/process.py', 'spaudiopy/utils.py', 'spaudiopy/grids.py',
       'spaudiopy/sig.py']

prop('C34', 'Results depend on the values of the arguments only',
     'Calls with equal values return equal results: the memory layout, '
     'writability and number type of an array, a list in place of an array '
     'where the function takes one, Python or numpy scalars, positional or '
     'keyword arguments, and optional arguments that are left out or given '
     'with their documented default make no difference.',
     ['inputs'], 'calls of the public numerical API with generated '
     'arguments, each in all other forms',
     'tests pass contiguous float arrays only',
     ALL, [('all public functions', 'spaudiopy/*.py')],
     'property-based testing: metamorphic relation between calls whose '
     'arguments have equal values',
     'A table of the public calls (that of C31); functions that only work '
     'on arrays are listed in the module.')

prop('C35', 'Batches are processed entry by entry, whatever their size',
     'Every function that takes several directions, points, sources, '
     'samples, channels or responses returns for each of them what it '
     'returns when that one is given alone. The number of entries, their '
     'order, and the values of the others have no influence.',
     ['inputs', 'configurations'], 'batches of 1 to 20000 entries, '
     'permuted, split and reduced to single entries',
     'the tests use one or two batch sizes',
     ALL, [('all batched functions', 'spaudiopy/*.py')],
     'property-based testing: metamorphic relation between a batch and its '
     'parts', 'Sizes up to 20000 (less where an entry is expensive).')

prop('C36', 'Results follow rotations and mirroring of the scene',
     'When all sources, loudspeakers, microphones and responses of a scene '
     'are rotated or mirrored together, gains, weights, spectra and angles '
     'stay the same, and vectors and sound fields rotate with the scene. '
     'Mirroring left and right swaps the ear signals, and looking to a side '
     'equals turning the room.',
     ['inputs'], 'random scenes under rotations, reflections and their '
     'combinations',
     'a test looks at single fixed scenes',
     ALL, [('sh_matrix, sht, src_to_sh, sh_mult, r_E', 'spaudiopy/sph.py'),
           ('LoudspeakerSetup, vbap, vbip, sad, mad, epad, magls_bin',
            'spaudiopy/decoder.py'),
           ('sh_music, sh_mvdr, sh_lcmv, pseudo_intensity, render_bsdm, '
            'render_stereo_sdm', 'spaudiopy/parsa.py')],
     'property-based testing: metamorphic relation between a scene and its '
     'transformed copy',
     'Generic scenes: no ties between triangles or nearest directions.')

prop('C37', 'Linear operations superpose and every result scales',
     'Transforms, decoders, encoders, beamformers, renderers, resampling, '
     'convolution and filtering are linear in their signals and responses '
     'at every level: a sum gives the sum of the results, and scaled inputs '
     'give scaled results. Directions, gains, angles and cues do not depend '
     'on the level or unit of their input, lengths, areas, levels and '
     'covariances scale with the documented power of it. (The loudspeaker '
     'binauralisation leaves out channels below its documented gate.)',
     ['inputs'], 'all linear and all homogeneous functions, levels from '
     '1e-9 to 1e6, sums, parts and entries of very different level',
     'tests use signals of one level',
     ALL, [('all linear functions', 'spaudiopy/*.py')],
     'property-based testing: superposition and homogeneity as metamorphic '
     'relations', 'To 1e-7 of the largest result.')
