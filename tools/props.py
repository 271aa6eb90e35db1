"""All property texts; build_meta.py writes properties.jsonl + MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None,
         state=None, note=''):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c)
                                 for a, b, c in state]
    P.append((d, note))


prop('C01', 'Spherical harmonics matrix is the correct orthonormal basis',
     'For every order, direction and type (real by default, or complex), the '
     'matrix of spherical harmonics holds the fully normalised (N3D) '
     'harmonics in ACN order, one row per direction, independently of the '
     'other directions and of the requested maximum order. The columns are '
     'orthonormal over the sphere, satisfy the addition theorem, and '
     'encoding a source signal multiplies it with the basis at the source '
     'direction. Unknown types are rejected.',
     ['inputs'], 'every order (explored to about 20), azimuths of any turn, '
     'zeniths in [0, pi] incl. poles, 1 to thousands of directions, scalars, '
     'lists and arrays of any memory layout',
     'The tests compare order <=3ish matrices on a fixed set of directions '
     'with stored MATLAB results.',
     ['spaudiopy/sph.py'], [('sh_matrix', 'spaudiopy/sph.py sh_matrix'),
                            ('src_to_sh', 'spaudiopy/sph.py src_to_sh')],
     ['return values'])

prop('C02', 'Spherical harmonics transforms invert and are optimal',
     'Evaluating coefficients at directions gives the series value there; '
     'transforming samples of an order-limited function back, by quadrature '
     'on a sufficient grid or by least squares on enough directions, returns '
     'the coefficients. For arbitrary samples the quadrature transform is '
     'the weighted sum with the conjugate basis and the least-squares '
     'transform leaves a residual orthogonal to the basis. This holds per '
     'channel, for real and complex data and types, with or without a '
     'precomputed basis, and the reported condition numbers are those of the '
     'sampled basis up to each order.',
     ['inputs'], 'every order, grid, data (real/complex, one or many '
     'channels), type and combination of optional arguments',
     'Tests transform a handful of fixed functions on one t-design.',
     ['spaudiopy/sph.py'],
     [('sht', 'spaudiopy/sph.py sht'),
      ('sht_lstsq', 'spaudiopy/sph.py sht_lstsq'),
      ('inverse_sht', 'spaudiopy/sph.py inverse_sht'),
      ('check_cond_sht', 'spaudiopy/sph.py check_cond_sht')])

prop('C03', 'Rotating coefficients rotates the spherical function',
     'Rotating spherical harmonics coefficients by yaw, pitch and roll gives '
     'the coefficients of the same function turned in space by exactly the '
     'rotation the Euler-angle matrix of the library describes, for real and '
     'complex types and any order and channel count. The rotation matrix is '
     'unitary, block diagonal per order, the identity for zero angles, and '
     'composes and inverts like the rotations in space.',
     ['inputs'], 'all orders (0 upwards), all angles incl. multiples of '
     'pi/2, negative and beyond one turn, real and complex coefficients',
     'Tests rotate few directions at fixed orders; orders, angles and '
     'composition are unbounded.',
     ['spaudiopy/sph.py', 'spaudiopy/utils.py'],
     [('sh_rotation_matrix', 'spaudiopy/sph.py sh_rotation_matrix'),
      ('rotate_sh', 'spaudiopy/sph.py rotate_sh')])

prop('C04', 'Coordinate conversions are exact and mutually inverse',
     'Cartesian and spherical coordinates (azimuth from x towards y, zenith '
     'from +z, radius) are converted into each other as defined and '
     'round-trip for every point, as do directions, vectors, degrees and '
     'radians and the elevation convention of MATLAB. The options for '
     'non-negative azimuth and a steady zenith only change the '
     'representation, near the origin too.',
     ['inputs'], 'every finite point and angle, scalars, lists and arrays of '
     'any shape',
     'Tests convert a few random points; axes, poles, origin, signs and '
     'option combinations are not swept.',
     ['spaudiopy/utils.py'],
     [('cart2sph / sph2cart', 'spaudiopy/utils.py'),
      ('cart2dir / dir2cart / vec2dir', 'spaudiopy/utils.py'),
      ('matlab_sph2cart', 'spaudiopy/utils.py'),
      ('deg2rad / rad2deg', 'spaudiopy/utils.py')])

prop('C05', 'Rotations in space, angular distances and triangle areas',
     'Rotation matrices from Euler angles, from axis and angle (any sign and '
     'axis length) and from one vector to another are proper rotations that '
     'do what they name. Great-circle distance and the angle between vectors '
     '(optionally seen from a vertex) are the true angles, symmetric, scaled '
     'with the radius, and accurate for tiny and nearly opposite separations; '
     'triangle areas are the true areas. A rotation without an axis is '
     'rejected.',
     ['inputs'], 'all angles, axes, pairs of vectors and triangles incl. '
     'nearly parallel / opposite / degenerate ones',
     'Tests use a few benign vectors.',
     ['spaudiopy/utils.py'],
     [('rotation_euler', 'spaudiopy/utils.py'),
      ('rotation_rodrigues', 'spaudiopy/utils.py'),
      ('rotation_vecvec', 'spaudiopy/utils.py'),
      ('haversine', 'spaudiopy/utils.py'),
      ('angle_between', 'spaudiopy/utils.py'),
      ('area_triangle', 'spaudiopy/utils.py')])

prop('C06', 'Sampling grids integrate spherical harmonics as promised',
     'Every provided spherical grid consists of unit vectors (or angles) in '
     'the documented format with weights adding up to the sphere, and '
     'integrates all spherical harmonics up to its degree exactly. Weights '
     'computed for arbitrary directions integrate the harmonics up to the '
     'given or found order. Degrees that are not available are rejected, '
     'and each call hands out an independent grid.',
     ['inputs', 'histories'], 'every degree of every grid family, any '
     'direction set for computed weights, any call sequence',
     'Tests touch single grids; the promise is per degree and for any '
     'directions.',
     ['spaudiopy/grids.py', 'data/Grids'],
     [('load_t_design', 'spaudiopy/grids.py'),
      ('load_n_design', 'spaudiopy/grids.py'),
      ('load_lebedev', 'spaudiopy/grids.py'),
      ('load_Fliege_Maier_nodes', 'spaudiopy/grids.py'),
      ('gauss / equal_angle / equal_polar_angle', 'spaudiopy/grids.py'),
      ('calculate_grid_weights', 'spaudiopy/grids.py')])

prop('C07', 'Ambisonic format conversions keep the sound field',
     'Conversions between N3D and SN3D, spherical harmonics and B-format, '
     'tetrahedral microphone signals and B-format, and the containers of '
     'them, are the documented linear maps for any order, channel count, '
     'axis and W weight, and are inverse to each other. A plane wave '
     'encoded to B-format has W equal to the (weighted) source and X, Y, Z '
     'equal to its direction cosines, and the stereo downmix equals two '
     'virtual microphones pointing 45 degree left and right.',
     ['inputs'], 'any signals, directions, orders, weights, axes',
     'Tests round-trip one random signal with default arguments.',
     ['spaudiopy/sph.py', 'spaudiopy/process.py', 'spaudiopy/sig.py'],
     [('sh_to_b / b_to_sh / soundfield_to_b / src_to_b', 'spaudiopy/sph.py'),
      ('n3d_to_sn3d / sn3d_to_n3d', 'spaudiopy/sph.py'),
      ('ambeo_a2b / b_to_stereo', 'spaudiopy/process.py'),
      ('AmbiBSignal.sh_to_b', 'spaudiopy/sig.py')])

prop('C08', 'Modal weights and beam patterns have their defining shape',
     'For every order, hypercardioid weights give maximum directivity, '
     'cardioid weights the pattern ((1+cos)/2)^N, max-rE weights the '
     'largest energy vector, Butterworth weights the documented roll-off, '
     'and the unity-gain option scales any weights to one on axis. '
     'Order-limited pulses, energy vectors and steered beamformers follow '
     'from these weights for every direction and signal; mismatching '
     'lengths are rejected.',
     ['inputs'], 'all orders, steering directions, patterns, filter orders '
     'and cut-offs, signals',
     'Tests check unit gain of a few patterns at few orders.',
     ['spaudiopy/sph.py', 'spaudiopy/parsa.py'],
     [('bandlimited_dirac / max_rE_weights / r_E', 'spaudiopy/sph.py'),
      ('hypercardioid / cardioid / maxre / butterworth _modal_weights',
       'spaudiopy/sph.py'),
      ('unity_gain / repeat_per_order', 'spaudiopy/sph.py'),
      ('sh_beamformer_from_pattern / sh_beamform', 'spaudiopy/parsa.py')])

prop('C09', 'Spherical filter bank reconstructs the sound field',
     'With enough uniformly spread sectors, analysing any sound field with '
     'the designed sector filters and resynthesising it returns the original '
     'coefficients in the perfect-reconstruction modes, and keeps the energy '
     'in the energy mode. The reconstruction factors keep amplitude or '
     'energy of a plane wave from any direction. Unknown modes are rejected.',
     ['inputs'], 'all orders, sector grids, patterns, real/complex types and '
     'sound fields',
     'Tests run fixed patterns on fixed t-designs.',
     ['spaudiopy/sph.py'],
     [('design_sph_filterbank', 'spaudiopy/sph.py'),
      ('sph_filterbank_reconstruction_factor', 'spaudiopy/sph.py')])

prop('C10', 'Product of spherical functions and sector beamformers',
     'The coefficients of a product of two functions given by coefficients '
     'of any (also different) orders evaluate to the product everywhere, for '
     'real and complex types and values; it is bilinear and commutative. '
     'The sector beamformer matrix yields for each sector pattern the '
     'pattern itself and its products with the three dipoles.',
     ['inputs'], 'all order pairs, real and complex coefficients, patterns',
     'Tests multiply a few fixed functions.',
     ['spaudiopy/sph.py', 'spaudiopy/parsa.py'],
     [('sh_mult', 'spaudiopy/sph.py'),
      ('sh_sector_beamformer', 'spaudiopy/parsa.py')])

prop('C11', 'Covariance based beamforming and source separation',
     'MVDR weights pass the steered direction undistorted with minimum '
     'output power and LCMV weights meet every linear constraint with '
     'minimum power, for every Hermitian positive-definite covariance. '
     'Separation splits a covariance into a signal part of the requested (or '
     'estimated) number of largest eigenvalues and a residual which add up to '
     'the input, and MUSIC values are the inverse projection on the noise '
     'subspace, peaking at the true source directions. Numbers of sources '
     'from none upwards work; mismatching sizes are rejected.',
     ['inputs'], 'all covariances (real, complex, near singular), source '
     'counts, look directions, constraint sets',
     'Tests check one simulated scene.',
     ['spaudiopy/parsa.py'],
     [('sh_mvdr', 'spaudiopy/parsa.py'), ('sh_lcmv', 'spaudiopy/parsa.py'),
      ('separate_cov', 'spaudiopy/parsa.py'),
      ('estimate_num_sources', 'spaudiopy/parsa.py'),
      ('sh_music', 'spaudiopy/parsa.py')])

prop('C12', 'Loudspeaker hull: geometry, refinement and preparation',
     'For every layout the hull covers all loudspeakers with outward '
     'oriented triangles whose centroids, areas, face and vertex normals, '
     'barycentre and distances are the true ones, relative to the listener '
     'position. Any sequence of refinements removes exactly the triangles '
     'exceeding the given limits (or blacklisted), and preparing for '
     'Ambisonics adds an imaginary loudspeaker only where needed, opposite '
     'the remaining opening, with kernel grid, order and updated hull as '
     'requested. The characteristic order follows from the average spread '
     'of panned sources.',
     ['inputs', 'histories', 'configurations'],
     'all layouts, listener positions, limits, orders of refinements and '
     'preparation options',
     'Tests use a single layout with fixed limits.',
     ['spaudiopy/decoder.py'],
     [('LoudspeakerSetup', 'spaudiopy/decoder.py'),
      ('get_hull / calculate_*', 'spaudiopy/decoder.py'),
      ('pop_triangles, check_normals/aperture/opening, apply_blacklist',
       'spaudiopy/decoder.py'),
      ('find_imaginary_loudspeaker', 'spaudiopy/decoder.py'),
      ('ambisonics_setup / characteristic_ambisonic_order',
       'spaudiopy/decoder.py')],
     state=[('valid simplices', 'triangles used for panning',
             'spaudiopy/decoder.py LoudspeakerSetup')])

prop('C13', 'Amplitude panning obeys the VBAP / VBIP / nearest laws',
     'For every layout and source, vector base panning gains are '
     'non-negative, use only loudspeakers of one valid triangle around the '
     'source, point the velocity (VBAP) or energy (VBIP) vector at the source, '
     'and have unit norm of the requested order, including distance '
     'compensation. With an imaginary loudspeaker, sources outside fade or '
     'have the imaginary gain redistributed as documented; nearest-loudspeaker '
     'panning picks the closest real one. Loudspeaker signals are gains '
     'times the input for static and per-sample gains, and arguments the laws '
     'do not permit are rejected.',
     ['inputs', 'configurations'], 'all layouts (refined, open, with '
     'imaginary loudspeakers), sources on faces, edges and vertices, one to '
     'thousands, norms, distance exponents',
     'Tests pan to few grids on one layout.',
     ['spaudiopy/decoder.py'],
     [('vbap', 'spaudiopy/decoder.py'), ('vbip', 'spaudiopy/decoder.py'),
      ('nearest_loudspeaker', 'spaudiopy/decoder.py'),
      ('LoudspeakerSetup.loudspeaker_signals', 'spaudiopy/decoder.py')])

prop('C14', 'Rendering depends only on the current setup, not on history',
     'A rendering request on a long-lived loudspeaker setup gives what a '
     'freshly made setup in the same configuration gives, whatever was '
     'rendered, refined or reconfigured before on this or any other setup. '
     'Rendering many sources at once, in pieces or one by one gives the same '
     'gains.',
     ['histories', 'configurations'],
     'all interleavings of construction, refinement, preparation, rendering '
     'and plotting over several setups',
     'Tests make one setup per test and render once.',
     ['spaudiopy/decoder.py'],
     [('cached inverses and kernel gains', 'spaudiopy/decoder.py '
       'LoudspeakerSetup, vbap, allrap, allrad'),
      ('ambisonics_setup / pop_triangles', 'spaudiopy/decoder.py')],
     state=[('cached inverted vector bases', 'must belong to the triangles',
             'spaudiopy/decoder.py vbap')])

prop('C15', 'All-round panning and decoding follow their construction',
     'AllRAP/AllRAP2 gains and AllRAD/AllRAD2 signals are those of panning a '
     'virtual optimal layout (the prepared t-design kernel) fed by max-rE '
     'weighted order-limited pulses or coefficients of the order in use, '
     'amplitude or energy preserving respectively. Kernel, order, imaginary '
     'loudspeaker removal and panning gains are taken from the prepared '
     'setup, AllRAP2 keeps the energy of every source on closed layouts, and '
     'unprepared setups or too few channels are rejected.',
     ['inputs', 'configurations'],
     'all layouts, orders, kernels, sources and coefficient signals',
     'Tests run one layout and compare two code paths.',
     ['spaudiopy/decoder.py'],
     [('allrap', 'spaudiopy/decoder.py'), ('allrap2', 'spaudiopy/decoder.py'),
      ('allrad', 'spaudiopy/decoder.py'),
      ('allrad2', 'spaudiopy/decoder.py')])

prop('C16', 'Sampling, mode-matching and energy-preserving decoders',
     'For every layout, order and signal the sampling decoder samples the '
     'sound field at the loudspeakers, the mode-matching decoder is the '
     'least-squares inverse that re-encodes exactly where possible, and the '
     'energy-preserving decoder emits constant energy for every plane wave. '
     'On t-design layouts they agree up to their normalisation, the order '
     'defaults as documented and too few channels are rejected.',
     ['inputs', 'configurations'], 'all layouts, orders, channel counts and '
     'signals', 'Tests run one layout.',
     ['spaudiopy/decoder.py'],
     [('sad', 'spaudiopy/decoder.py'), ('mad', 'spaudiopy/decoder.py'),
      ('epad', 'spaudiopy/decoder.py')])

prop('C17', 'Parallel processing gives exactly the serial result',
     'Panning, parametric analysis, binaural SDM rendering and HRIR '
     'resampling return the same result for every number of parallel jobs, '
     'every schedule of the worker processes and every multiprocessing start '
     'method, also when called repeatedly and interleaved with other work. '
     'No contribution of a worker is lost, repeated or misplaced.',
     ['schedules', 'configurations', 'inputs'],
     'all job counts (also more jobs than work), worker interleavings, start '
     'methods fork / spawn / forkserver, problem sizes',
     'Tests compare one job count on one size under fork with the schedule '
     'that happens.',
     ['spaudiopy/decoder.py', 'spaudiopy/parsa.py', 'spaudiopy/process.py'],
     [('shared arrays and locks of render_bsdm', 'spaudiopy/parsa.py'),
      ('chunked VBAP', 'spaudiopy/decoder.py vbap'),
      ('pseudo_intensity workers', 'spaudiopy/parsa.py'),
      ('resample_hrirs workers', 'spaudiopy/process.py')],
     state=[('shared output arrays', 'sum of all worker contributions',
             'spaudiopy/parsa.py')])

prop('C18', 'Binaural rendering superposes the right head responses',
     'Looking up a head-related response returns the pair measured nearest '
     'to the direction. Binauralising loudspeaker signals equals the sum of '
     'each signal convolved with the response of its (head-orientation '
     'relative) direction, and binaural decoding of Ambisonic signals the sum '
     'of channels convolved with their filters, with full length and left '
     'and right in order. HRIR sets copy independently, can be replaced in '
     'place, and mismatching rates and sizes are rejected.',
     ['inputs', 'histories'],
     'all HRIR grids, layouts, orientations, signals of any length and level',
     'Tests render one signal with a dummy set.',
     ['spaudiopy/decoder.py', 'spaudiopy/sig.py'],
     [('LoudspeakerSetup.binauralize', 'spaudiopy/decoder.py'),
      ('sh2bin', 'spaudiopy/decoder.py'), ('HRIRs', 'spaudiopy/sig.py')])

prop('C19', 'Magnitude least-squares binaural filters',
     'The filters reproduce the HRTFs in the least-squares sense below the '
     'transition frequency and their magnitudes in the least-squares sense '
     'above it, with the phase continued as selected and the requested '
     'high-frequency delays of the ears. They are real, as long as the '
     'HRIRs, independent of the order of the measurement grid, scale with '
     'the HRIRs and swap with the ears. Unknown continuations are rejected.',
     ['inputs', 'configurations'],
     'all HRIR sets, orders, tap counts (odd too), transition frequencies, '
     'continuations and delays',
     'Tests only run it once.',
     ['spaudiopy/decoder.py'], [('magls_bin', 'spaudiopy/decoder.py')])

prop('C20', 'Pseudo-intensity analysis and SDM rendering',
     'The direction of arrival from the pseudo intensity vector of a plane '
     'wave is its direction, and for any B-format signal follows the '
     'documented windowed intensity with and without band-pass. SDM '
     'rendering to stereo, to loudspeakers, to binaural loudspeakers and '
     'directly to binaural places every pressure sample at its own time and '
     'direction and superposes it linearly, one output of the documented '
     'length per ear or loudspeaker.',
     ['inputs'], 'all B-format signals, window lengths, band-passes, '
     'pressures and direction trajectories, HRIR grids and layouts',
     'Tests compare job counts only.',
     ['spaudiopy/parsa.py'],
     [('pseudo_intensity', 'spaudiopy/parsa.py'),
      ('render_stereo_sdm / render_bsdm', 'spaudiopy/parsa.py'),
      ('render_binaural_loudspeaker_sdm', 'spaudiopy/parsa.py')])

prop('C21', 'Signal containers behave like the samples they hold',
     'After any sequence of operations (access, assignment, trimming, '
     'filtering, resampling, copying, channel access) single, multi channel '
     'and B-format containers hold, per channel, exactly the samples the '
     'operations define, of equal length and with the right sampling rate. '
     'Copies and source arrays are independent, and the named B-format '
     'channels always are the current channels.',
     ['histories', 'inputs'],
     'all operation sequences on several containers and copies',
     'Tests do one or two operations per container.',
     ['spaudiopy/sig.py'],
     [('MonoSignal', 'spaudiopy/sig.py'), ('MultiSignal', 'spaudiopy/sig.py'),
      ('AmbiBSignal', 'spaudiopy/sig.py')],
     state=[('channels / signal / fs', 'contents of the container',
             'spaudiopy/sig.py')])

prop('C22', 'Audio files round-trip signals',
     'Saving any container or array and loading it again returns the same '
     'samples in the precision of the format, channels in order, and the '
     'sampling rate; several files load as the channels of one signal in the '
     'given order. Signals that exceed full scale are announced and kept '
     'by floating point files, inconsistent or missing sampling rates and '
     'files of mismatching rate or length are rejected.',
     ['inputs', 'configurations'],
     'all signals, channel counts, formats, rates, path forms',
     'Tests save and load one mono and one multi-channel example.',
     ['spaudiopy/io.py', 'spaudiopy/sig.py'],
     [('save_audio / load_audio', 'spaudiopy/io.py'),
      ('from_file / save', 'spaudiopy/sig.py')])

prop('C23', 'Loudspeaker layout files describe the same setup',
     'Loading a layout file builds the setup of exactly its loudspeakers, in '
     'order, with gains, listener position and imaginary loudspeakers (which '
     'fill the hull but get no signal) as the file states. Saving any setup '
     'and loading it again returns the positions within the two decimals of '
     'the format and the same gains and imaginary flags. Files without '
     'loudspeakers or that are malformed are rejected.',
     ['inputs', 'configurations'],
     'all layouts, channel orders, gains, flags, listener positions',
     'Tests load one shipped layout.',
     ['spaudiopy/io.py', 'data/ls_layouts'],
     [('load_layout', 'spaudiopy/io.py'), ('save_layout', 'spaudiopy/io.py')])

prop('C24', 'Measured data files load to the data they contain',
     'HRIR sets, SOFA files and SDM files in any of the supported field '
     'names, number formats and path forms load to the responses, directions '
     'and sampling rate they contain, ears not swapped, and SOFA responses '
     'transform to the coefficients that describe them. A set of another '
     'sampling rate, sources not on a sphere or a missing file are rejected. '
     'The default set made on request matches its source '
     'coefficients at 44.1 kHz and their resampled responses at the other '
     'rates, whichever is requested first.',
     ['inputs', 'histories'],
     'all file contents, coordinate conventions, rates, request orders',
     'Tests load the dummy set only.',
     ['spaudiopy/io.py', 'spaudiopy/sig.py'],
     [('load_hrirs / get_default_hrirs', 'spaudiopy/io.py'),
      ('load_sofa_data / load_sofa_hrirs / sofa_to_sh', 'spaudiopy/io.py'),
      ('load_sdm', 'spaudiopy/io.py')])

prop('C25', 'Exported room responses match the rendering of every head turn',
     'The file written for head tracked rendering holds, for each degree of '
     'head azimuth and for left and right ear in order, the sum over all '
     'loudspeakers (or arrivals of the parametric analysis) of their gain '
     'times the response of the nearest direction as seen from the turned '
     'head, at the requested sampling rate and sample format. A set that '
     'would clip is scaled down as a whole, any other is written as it is; '
     'disagreeing sampling rates are rejected.',
     ['inputs'], 'all layouts, gains, response sets, grids, file names, '
     'sample formats and levels',
     'The tests do not write these files.',
     ['spaudiopy/io.py', 'spaudiopy/sig.py'],
     [('write_ssr_brirs_loudspeaker', 'spaudiopy/io.py'),
      ('write_ssr_brirs_sdm', 'spaudiopy/io.py')], ['written files'])

prop('C26', 'Fractional octave bands, smoothing, tapers and gain limits',
     'The bands of the fractional-octave filter bank cover all frequencies, '
     'add up to unity in energy (or amplitude when asked for), overlap only '
     'their neighbours and have their edges where the reported frequencies '
     'say. Smoothing a spectrum is the weighted mean over the fraction of an '
     'octave around each bin for any number type, tapers have unit start and '
     'fall monotonically, and limiting gains leaves those below the '
     'threshold and never exceeds twice the threshold. Invalid modes, '
     'overlaps and lengths are rejected.',
     ['inputs'], 'all fractions, lengths, rates, band limits, overlaps, '
     'slopes, spectra',
     'Tests check one filter bank for energy conservation.',
     ['spaudiopy/process.py'],
     [('frac_octave_filterbank', 'spaudiopy/process.py'),
      ('frac_octave_smoothing', 'spaudiopy/process.py'),
      ('half_sided_Hann', 'spaudiopy/process.py'),
      ('gain_clipping', 'spaudiopy/process.py')])

prop('C27', 'Resampling, delays, levels and test signals are accurate',
     'Resampling treats every channel or response alike and by itself, keeps '
     'tones below both Nyquist limits at their frequency, amplitude and '
     'phase, and returns the expected length; fractional delays shift by the '
     'given amount; level, decibel, decay, band level and loudness matching '
     'functions follow their definitions. Stacking and interleaving keep '
     'every sample in place, and noise pulses have the requested length, '
     'pauses, repetitions, fades, level and spectrum.',
     ['inputs'], 'all rates, axes, channel counts, lengths, delays, gains, '
     'numbers of repetitions',
     'Tests resample one HRIR set.',
     ['spaudiopy/process.py', 'spaudiopy/utils.py', 'spaudiopy/sig.py'],
     [('resample_signal / resample_hrirs / resample_spectrum',
       'spaudiopy/process.py'),
      ('lagrange_delay', 'spaudiopy/process.py'),
      ('match_loudness / energy_decay / subband_levels / pulsed_noise',
       'spaudiopy/process.py'),
      ('from_db / db / rms / stack / interleave_channels',
       'spaudiopy/utils.py')])

prop('C28', 'Interaural differences and common response equalisation',
     'For every direction of a response set, the level difference is the '
     'ratio of the ears above the crossover and the time difference is the '
     'lag of one ear against the other below it, with the sign saying which '
     'ear leads. The common response filter inverts the weighted diffuse '
     'average of the set within its limits, and equalising with it filters '
     'every response alike while keeping directions and sampling rate.',
     ['inputs'], 'all response sets, grids, quadrature weights, rates, '
     'crossovers, regularisation limits, with and without minimum phase',
     'Tests use the dummy set only.',
     ['spaudiopy/process.py'],
     [('ilds_from_hrirs / itds_from_hrirs', 'spaudiopy/process.py'),
      ('hrirs_ctf / apply_ctf_eq', 'spaudiopy/process.py')])

prop('C29', 'Requests have no side effects and no memory',
     'No function or method alters the arrays, lists, signals, response sets '
     'or setups handed to it (unless changing that object is its purpose), '
     'its own defaults or any state of the process, even when it rejects the '
     'request. The same request gives the same result whatever was asked '
     'before, in this or a fresh process, and also when several threads ask '
     'at the same time; changing a returned array changes neither later '
     'results nor the data that was handed in.',
     ['histories', 'schedules', 'inputs'],
     'all sequences of requests to all parts of the library, all arguments, '
     'and concurrent threads',
     'Each test makes its own fresh calls and looks at results only.',
     ['spaudiopy'],
     [('all public functions', 'spaudiopy/*.py'),
      ('plots', 'spaudiopy/plot.py'),
      ('LoudspeakerSetup', 'spaudiopy/decoder.py'),
      ('MonoSignal / MultiSignal / HRIRs', 'spaudiopy/sig.py')],
     ['arguments after the call', 'return values', 'process wide state'])

prop('C30', 'Plots show the data they are given',
     'Every plot draws the values of its data at their frequencies, '
     'directions or positions: spectra in decibel or linear, spherical '
     'functions at radius |f| with the phase as colour, maps with the level '
     'of each direction, hulls with valid and invalid triangles, performance '
     'maps with amplitude, energy, spread and error of the renderer, '
     'arrivals with size and time. Options (axes, limits, labels, titles, '
     'groups, colours) apply to exactly what they name, and data that does '
     'not fit is rejected.',
     ['inputs', 'configurations'],
     'all data, number types, orders, channel counts and options',
     'Tests do not look at what is drawn.',
     ['spaudiopy/plot.py'],
     [('spectrum / freq_resp / transfer_function', 'spaudiopy/plot.py'),
      ('sh_coeffs* / sh_rms_map / spherical_function*',
       'spaudiopy/plot.py'),
      ('hull / hull_normals / decoder_performance / doa / polar / sh_bar',
       'spaudiopy/plot.py')], ['drawn artists'])

prop('C31', 'Sound on open and rigid spheres follows wave theory',
     'The mode strengths of open and rigid spheres are the coefficients of '
     'an incident plane wave: superimposed they give the free plane wave, '
     'and satisfy the condition of zero velocity on the rigid surface. The '
     'diffuse pressure on a sphere is their (optionally weighted) energy sum '
     'per order, and the coloration compensation is the ratio between the '
     'full and the order-limited pressure, unity where that is undefined. '
     'Unknown sphere types are rejected.',
     ['inputs'], 'all orders, radii, frequencies (arrays, scalars, '
     'integers), order weights',
     'Tests do not evaluate these functions.',
     ['spaudiopy/sph.py'],
     [('spherical_hn2 / mode_strength', 'spaudiopy/sph.py'),
      ('pressure_on_sphere', 'spaudiopy/sph.py'),
      ('binaural_coloration_compensation', 'spaudiopy/sph.py')])

prop('C32', 'Requests that cannot be served are rejected and change nothing',
     'Unknown options (basis, mode, pattern, renderer, sphere, data type), '
     'numbers of channels, gains, directions, weights or ears that do not '
     'agree, orders out of range, setups that were not prepared, conflicting '
     'sampling rates and missing or unsuitable files raise an error instead '
     'of giving a result. A rejected request leaves its arguments, the '
     'object it was made to and the files on disk as they were.',
     ['inputs', 'histories'],
     'all functions with such requirements, all ways to violate one of them',
     'Tests make valid requests.',
     ['spaudiopy'],
     [('sh_matrix / sh_rotation_matrix / src_to_sh', 'spaudiopy/sph.py'),
      ('panning and decoding functions', 'spaudiopy/decoder.py'),
      ('load_* of grids', 'spaudiopy/grids.py'),
      ('load_* / save_* / write_*', 'spaudiopy/io.py'),
      ('signal and HRIRs containers', 'spaudiopy/sig.py'),
      ('parametric analysis', 'spaudiopy/parsa.py')])

prop('C33', 'Post equalisation of parametric rendering restores the spectrum',
     'Equalising the loudspeaker signals of the parametric rendering gives '
     'each block and octave band the level of the pressure signal at the '
     'listener, adding loudspeakers in amplitude in the lowest band, in '
     'energy in the high bands and mixed in between, with zero phase and '
     'within the boost limit. What already matches is left unchanged, silent '
     'loudspeakers stay silent, the reported band gains are those applied, '
     'and signal that had to be truncated is announced. This holds for all '
     'sampling rates, distances and attenuation exponents.',
     ['inputs', 'configurations'],
     'all layouts, distances, attenuation exponents, signals, lengths, '
     'rates, block sizes, smoothing orders, soft clipping on or off',
     'Tests do not call the post equalisation.',
     ['spaudiopy/parsa.py'],
     [('sdm_post_equalization', 'spaudiopy/parsa.py'),
      ('sdm_post_equalization2', 'spaudiopy/parsa.py')])

TECH = {
    '': 'Runtime monitoring: randomised and hostile workloads on the real '
        'code; every call observed (argument fingerprints, repeated and '
        'later replayed calls), results decided online by an independent '
        'reference model / algebraic law.',
    'C17': 'Runtime monitoring of the real worker processes under injected '
           'delays and several start methods; results compared with an '
           'independent serial reference (lost, repeated, misplaced work).',
    'C14': 'Runtime monitoring of operation histories on long-lived setups; '
           'oracle: the same request on a fresh setup brought to the same '
           'configuration.',
    'C29': 'Runtime monitoring of mixed histories of all workloads: deep '
           'argument and process state fingerprints at every call; results '
           'compared with a fresh process (zygote) and between threads.',
    'C32': 'Runtime monitoring of requests that violate one requirement, '
           'with fingerprints of arguments, objects and files around the '
           'rejection.',
    'C21': 'Runtime monitoring of random operation histories against an '
           'executable model of the container contents.',
}
