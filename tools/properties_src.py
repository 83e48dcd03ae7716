# executed by make_manifest.py

add('C01', 'Magnetic field components are the sum of the harmonic expansion',
    'For Gauss coefficients of an internal or external source, the three '
    'spherical field components computed at given radii, colatitudes and '
    'longitudes equal minus the gradient of the Schmidt quasi-normalised '
    'potential with the configured reference radius, to rounding. This '
    'includes every truncation by minimum and maximum degree and maximum '
    'order, every broadcastable shape of coefficients and positions, and the '
    'grid mode, whose result equals that of the corresponding points. The '
    'field is linear in the coefficients, unchanged by 360 degrees of '
    'longitude, and turns with them in longitude.',
    'coefficients, degree and order ranges, sources, radii, positions, array '
    'layouts',
    'The tests compare a few fixed fields with stored MATLAB results, at one '
    'degree range and one layout each; truncation, broadcasting and the '
    'external source have unboundedly many combinations.',
    ['model_utils.py'],
    [('recursion over degree with radial factors', 'model_utils.py '
      'synth_values'), ('Legendre recursion', 'model_utils.py '
                        'legendre_poly')],
    'Hypothesis; differential against an independent harmonic synthesis, '
    'metamorphic laws',
    'Degrees up to 20 (90 in one facet) and radii of 0.5 to 4 Earth radii; '
    'trusts the independent reference in lib/ref.py.')

add('C02', 'The field is right at the poles; invalid positions are rejected',
    'At colatitudes of exactly 0 and 180 degrees, and arbitrarily close to '
    'them, field components and design matrices are finite and equal their '
    'limit along the meridian of the given longitude, also when poles and '
    'other positions are mixed in one call or grid. Colatitudes outside of '
    '0 to 180 degrees, impossible degree or order ranges and unknown sources '
    'raise an error, even if only one element of an array is wrong and others '
    'are unknown (NaN), which give NaN.',
    'arrays that mix poles, neighbours of poles and ordinary positions; '
    'requests invalid in one element or option',
    'The tests evaluate the poles for one coefficient set; rejection has to '
    'hold for any array with one bad element.',
    ['model_utils.py'],
    [('pole branch (l\'Hopital)', 'model_utils.py synth_values'),
     ('pole branch (l\'Hopital)', 'model_utils.py design_gauss')],
    'Hypothesis; limit along the meridian as oracle, rejection of invalid '
    'requests',
    'Trusts the independent reference in lib/ref.py and the vector basis '
    'documented for the poles.')

add('C03', 'Design matrices and Legendre functions reproduce the field model',
    'Every column of the design matrices for Gauss coefficients (any degree '
    'and order range, source and broadcast shape) and for spline models in '
    'time equals the field of the corresponding single coefficient, so that '
    'the matrix times a coefficient vector is the synthesised field. The '
    'associated Legendre functions returned together with their derivatives '
    'are the Schmidt quasi-normalised ones for all degrees and orders.',
    'degree and order ranges, sources, positions, spline orders, knots, times',
    'The tests compare with stored results for one or two degree ranges; '
    'column order and truncation matter for every combination.',
    ['model_utils.py'],
    [('column loop', 'model_utils.py design_gauss'),
     ('tensor product with B-splines', 'model_utils.py design_matrix'),
     ('recursion', 'model_utils.py legendre_poly')],
    'Hypothesis; every column against an independent reference',
    'Degrees up to 8 (design) and 40 (Legendre); knots with full endpoint '
    'multiplicity.')

add('C04', 'Spline tools agree with the exact B-spline and polynomial algebra',
    'The B-spline collocation matrix, the augmented knots, the conversion of '
    'B-spline coefficients to piecewise polynomials and the synthesis from '
    'B-splines give the exact B-spline values and time derivatives, at '
    'interior times, at the knots and at the end points, for any order and '
    'any break points; outside of the knots they give no number (NaN). The '
    'field synthesised from a piecewise polynomial is the field of its '
    'coefficients, per year for a derivative, for every truncation, source, '
    'grid and derivative.',
    'break points, spline orders, derivatives, coefficients, times inside, '
    'on and outside of the knots',
    'The tests use one knot vector and one order.',
    ['model_utils.py'],
    [('collocation', 'model_utils.py colloc_matrix'),
     ('augmented knots', 'model_utils.py augment_breaks'),
     ('conversion', 'model_utils.py pp_from_bspline'),
     ('synthesis', 'model_utils.py synth_from_pp')],
    'Hypothesis; Cox-de Boor recursion and exact polynomials as oracle',
    'Orders 1 to 7; first and last knots with the full multiplicity, as '
    'documented.')

add('C05', 'Spatial power spectra are the mean square field per degree',
    'The power spectrum of internal, external and toroidal coefficients at '
    'any radius equals the mean square of the field of each degree over the '
    'sphere of that radius, for any shape, axis and truncation of the '
    'coefficients, and depends on the configured reference radius in the '
    'same way as the field. The degree correlation is the normalised inner '
    'product per degree (1 for proportional models, -1 for opposite ones) '
    'and the sensitivity is the error normalised by the root mean square of '
    'the true coefficients of the degree.',
    'coefficients, radii, sources, axes, truncations',
    'The tests check single vectors at the surface; the normalisation has to '
    'hold for every degree, axis and radius.',
    ['model_utils.py'],
    [('degree loop', 'model_utils.py power_spectrum'),
     ('degree loop', 'model_utils.py degree_correlation'),
     ('degree loop', 'model_utils.py sensitivity')],
    'Hypothesis; exact spherical quadrature of |B|^2 and definition as oracle',
    'Quadrature is exact for the degrees used; degrees up to about 8.')

add('C06', 'Spherical/Cartesian conversion, centred azimuths and local time',
    'Converting spherical to Cartesian positions and back (in either '
    'direction) is the identity, with colatitudes in [0, 180] and longitudes '
    'in [-180, 180] degrees of the same point in space. Centring any azimuth '
    'adds a multiple of 360 degrees and ends within [-180, 180], and the '
    'local time is the universal time plus longitude over 15 degrees, within '
    'one day. All of them treat arrays element by element with NumPy '
    'broadcasting.',
    'positions, azimuths and times over wide ranges, in any array layout',
    'The tests use a few positions; wrapping matters at the borders and for '
    'many turns.',
    ['coordinate_utils.py'],
    [('conversion', 'coordinate_utils.py spherical_to_cartesian'),
     ('conversion', 'coordinate_utils.py cartesian_to_spherical'),
     ('wrapping', 'coordinate_utils.py center_azimuth'),
     ('wrapping', 'coordinate_utils.py local_time')],
    'Hypothesis; round trips and wrapping laws',
    'Angles compared on the circle.')

add('C07', 'Geodetic and geocentric coordinates are inverse to each other',
    'A geodetic height and colatitude give the geocentric radius and '
    'colatitude of the point at that height along the ellipsoid normal, and '
    'converting back gives the height and colatitude again, for points below '
    'and far above the configured ellipsoid and on both hemispheres. Vector '
    'components are turned by the angle between the two verticals, so that '
    'length is preserved and the return trip gives the components again, and '
    'the geodetic base vectors are the orthonormal ones of that rotation.',
    'heights from -50 to 50000 km, colatitudes, ellipsoids, vectors, layouts',
    'The tests check a handful of points of one ellipsoid.',
    ['coordinate_utils.py'],
    [('closed form', 'coordinate_utils.py gg_to_geo'),
     ('inverse', 'coordinate_utils.py geo_to_gg'),
     ('base vectors', 'coordinate_utils.py basevectors_gg')],
    'Hypothesis; ellipsoid geometry and round trips as oracle',
    'Within 0.01 degrees of the poles the inverse may be NaN, as documented.',
    over=('inputs', 'configurations'))

add('C08', 'GSM, SM and MAG frames: orthonormal, right-handed, invertible',
    'The base vectors of GSM, SM, MAG and USE systems are orthonormal and '
    'right-handed and oriented by their definition (Sun direction, dipole '
    'axis), for every time and every documented form of the dipole '
    '(including the configured one and time series). Transforming points or '
    'tangential vectors to a system and back gives them again, keeps the '
    'angles between directions and the length of vectors, and equals the '
    'projection onto the base vectors of that system. The rotation matrix of '
    'vectors agrees with the transformed vectors, and incomplete or unknown '
    'requests raise an error.',
    'times, dipoles in all forms, positions, vectors, systems, layouts',
    'The tests compare with stored results for one dipole and a few times.',
    ['coordinate_utils.py'],
    [('base vectors', 'coordinate_utils.py basevectors_gsm, '
      'basevectors_sm, basevectors_mag, basevectors_use'),
     ('transformation', 'coordinate_utils.py geo_to_base, '
      'matrix_geo_to_base, transform_points, transform_vectors'),
     ('dipole', 'coordinate_utils.py dipole_to_vec, igrf_dipole')],
    'Hypothesis; geometric definition, isometry and round-trip oracles',
    'Tilted dipoles; vectors not at the poles of either system.',
    over=('inputs', 'configurations'))
P[-1]['statement'] = (
    'The base vectors of GSM, SM, MAG and USE systems are orthonormal, '
    'right-handed and oriented by their definition (Sun direction, dipole '
    'axis), for every time and every documented form of the dipole '
    '(including the configured one and time series). Transforming points or '
    'tangential vectors to a system and back gives them again, keeps angles '
    'and lengths, and equals the projection onto the base vectors of that '
    'system. The rotation matrix of vectors agrees with the transformed '
    'vectors, and unknown systems or a missing time raise an error.')

add('C09', 'Rotated Gauss coefficients describe the same field',
    'The matrix that rotates Gauss coefficients between two Cartesian '
    'systems (one or a series of them) gives coefficients whose field in the '
    'rotated positions is the field of the original coefficients, keeps the '
    'power of every degree, and composes like the rotations. The spherical '
    'harmonic analysis of a function on the sphere returns the coefficients '
    'of any expansion up to the chosen degree, also of a longer one.',
    'rotations, degrees, coefficients, functions of known harmonics',
    'The tests check one rotation of one dipole and one function.',
    ['coordinate_utils.py'],
    [('rotation matrix', 'coordinate_utils.py rotate_gauss'),
     ('analysis', 'coordinate_utils.py sh_analysis')],
    'Hypothesis; metamorphic field equality under rotation, exact inverse',
    'Degrees up to 5 (rotation) and 12 (analysis).')

add('C10', 'Sun position and zenith angle follow the solar ephemeris',
    'For every time from 1901 to 2099 the Sun position (colatitude and '
    'longitude) agrees with an independent solar ephemeris to the documented '
    'accuracy, and times outside of this period raise an error. The zenith '
    'angle is the angular distance of a position from the subsolar point, '
    'within 0 and 180 degrees and never NaN, including at the subsolar point '
    'and its antipode.',
    'times of two centuries, positions, layouts',
    'The tests compare a few stored times; the bounds and singular positions '
    'are not touched.',
    ['coordinate_utils.py'],
    [('ephemeris', 'coordinate_utils.py sun_position'),
     ('spherical law of cosines', 'coordinate_utils.py zenith_angle')],
    'Hypothesis; independent low-precision ephemeris, spherical geometry',
    'Agreement to 0.02 degrees with the reference ephemeris.')

add('C11', 'Fourier series of the rotation matrices reproduce the rotation',
    'The time-dependent rotation matrix synthesised from frequencies and '
    'spectra is the real Fourier series of the documented convention, for '
    'scaled and unscaled spectra and any shape of frequencies and times. The '
    'spectra computed for GSM or SM systems reproduce the rotation matrices '
    'at the sampling times, and the spectrum of the induced part is the '
    'inducing one multiplied by the response function at each frequency, '
    'with the strongest frequencies kept when a filter is set.',
    'frequencies, spectra, times, samplings, degrees, systems, responses, '
    'filters',
    'The tests check one sampling of one system with all frequencies.',
    ['coordinate_utils.py'],
    [('series', 'coordinate_utils.py synth_rotate_gauss'),
     ('FFT and response', 'coordinate_utils.py rotate_gauss_fft')],
    'Hypothesis; direct Fourier sums and exact reconstruction',
    'Exact reconstruction for an odd number of samples.')

add('C12', 'Induction response solves the layered-sphere problem',
    'The C- and Q-responses, apparent resistivity, and phase of a layered '
    'conducting sphere agree with an independent solution of the induction '
    'equation for uniform shells and for the documented variable '
    'conductivity, for every period, degree, and number of shells. They obey '
    'the physical limits (insulator, perfect conductor, equal shells that '
    'may be merged, complex conjugate for negative periods) and the '
    'Q-response matrix from the configured conductivity model assembles them '
    'per degree and frequency, with no response at zero frequency.',
    'conductivity profiles, radii, periods of minutes to years, degrees',
    'The tests compare one profile with stored MATLAB results.',
    ['coordinate_utils.py'],
    [('recursion over the shells', 'coordinate_utils.py q_response_1D'),
     ('assembly', 'coordinate_utils.py q_response')],
    'Hypothesis; independent boundary-value solution, limits and laws',
    'Conductivities not negative; degrees up to 25 (uniform shells) and 60.',
    over=('inputs', 'configurations'))

add('C13', 'Time conversions are exact and inverse to each other',
    'Calendar dates of the years 1 to 9999 given as numbers, arrays, '
    'datetime or datetime64 with any unit convert to the modified Julian '
    'date of the proleptic Gregorian calendar (hours and smaller units of '
    'any size add up), and converting to a timestamp gives the date again to rounding. Decimal years convert to modified '
    'Julian dates and back without loss, increase with time, and hit the '
    'exact year boundaries with and without leap years. Leap years follow '
    'the Gregorian rule for every integer type, and invalid dates or '
    'non-integer years raise an error.',
    'dates with nanoseconds, decimal years and their floating-point '
    'neighbours at year boundaries, layouts, dtypes',
    'The tests use a handful of dates after 2000; century years, year '
    'boundaries and dates far away are not reached.',
    ['data_utils.py'],
    [('calendar arithmetic', 'data_utils.py mjd2000, timestamp'),
     ('decimal years', 'data_utils.py dyear_to_mjd, mjd_to_dyear'),
     ('leap years', 'data_utils.py is_leap_year')],
    'Hypothesis; Python integer calendar arithmetic as reference, round '
    'trips',
    'Proleptic Gregorian calendar.')
P[-1]['statement'] = (
    'Calendar dates of the years 1 to 9999 given as numbers, arrays, '
    'datetime or datetime64 convert to the modified Julian date of the '
    'proleptic Gregorian calendar (hours and smaller units of any size add '
    'up), and converting to a timestamp gives the date again to rounding. '
    'Decimal years convert to modified Julian dates '
    'and back without loss, increase with time, and hit the exact year '
    'boundaries with and without leap years. Leap years follow the '
    'Gregorian rule for every integer type, and invalid dates or non-integer '
    'years raise an error.')

add('C14', 'Coefficient files (SHC) can be written and read without loss',
    'A coefficient array saved as SHC file holds header, times, degrees, '
    'orders and values as documented, so that an independent reader and the '
    'package itself recover them to the written precision, for any degree '
    'range, number of snapshots, header, comment character and leap-year '
    'convention. A time-dependent or static model saved as SHC file and '
    'loaded again (also with a single snapshot) describes the same field at '
    'all times, with the same degrees and spline order. Files of other '
    'programs with comments and other white space are read alike.',
    'coefficients, degree ranges, times, orders, headers, comments, '
    'leap-year conventions',
    'The tests save and load one model with one convention.',
    ['data_utils.py', 'chaos.py'],
    [('reader', 'data_utils.py load_shcfile'),
     ('writer', 'data_utils.py save_shcfile'),
     ('models', 'chaos.py BaseModel.to_shc, BaseModel.from_shc, '
      'CHAOS.save_shcfile, CHAOS.from_shc, load_CHAOS_shcfile')],
    'Hypothesis; round trips and an independent reader and writer',
    'Eight decimals in the file; splines as smooth as their order allows.')

add('C15', 'Time-dependent coefficients are the piecewise polynomial',
    'Within the interval of a model, the coefficients and their time '
    'derivatives (per year) at any time equal the piecewise polynomial '
    'defined by its breaks and polynomial coefficients, right-continuous at '
    'the breaks, for every polynomial order, truncation, and time as float, '
    'list or array of any shape. Lower orders than stored use the lower '
    'polynomial terms, derivatives beyond the order are zero, and a model '
    'without coefficients raises an error.',
    'breaks, orders, dimensions, truncations, derivatives, times at, between '
    'and next to breaks',
    'The tests check one order and a few times of a real model.',
    ['chaos.py'],
    [('PPoly evaluation and scaling', 'chaos.py Base.synth_coeffs, '
      'BaseModel.synth_coeffs')],
    'Hypothesis; reference polynomial evaluation in Horner form',
    'Times inside of the model interval.')

add('C16', 'Extrapolation in time follows the chosen polynomial degree',
    'Outside of its interval a model is continued by the Taylor polynomial '
    'at its end, of the chosen degree (constant, linear by default, '
    'quadratic, cubic, all terms of the spline, or an integer order), and is '
    'NaN if switched off, for values and derivatives. Each time of an array '
    'is treated on its own: times inside are not affected by times outside '
    'or NaN in the same array, and the model itself is not changed. Unknown '
    'modes raise an error.',
    'models, modes, derivatives, arrays that mix times before, inside and '
    'after',
    'The tests cover one mode for one model at one end.',
    ['chaos.py'],
    [('extension of the piecewise polynomial', 'chaos.py '
      'Base.synth_coeffs')],
    'Hypothesis; exact Taylor continuation as oracle, locality of elements',
    'At the very end points either one-sided derivative is accepted.')

add('C17', 'Model field values are the field of the model coefficients',
    'The field that a model or a part of CHAOS (time-dependent, static) '
    'gives at any times and positions, as points or grid and of internal or '
    'external source, is the harmonic expansion of the coefficients at these '
    'times, for every truncation, derivative and extrapolation mode, and the '
    'secular variation integrates to the change of the field. The spectrum '
    'of a model at a time is that of its coefficients. Asking for a part '
    'that the model does not have raises an error.',
    'models, sources, truncations, derivatives, extrapolation, broadcastable '
    'times and positions',
    'The tests compare CHAOS at a few stored points.',
    ['chaos.py'],
    [('value synthesis', 'chaos.py BaseModel.synth_values, '
      'CHAOS.synth_values_tdep, CHAOS.synth_values_static'),
     ('spectrum', 'chaos.py BaseModel.power_spectrum')],
    'Hypothesis; composition of reference spline and reference synthesis, '
    'time integral law',
    'Trusts the independent reference in lib/ref.py.',
    over=('inputs', 'configurations'))

add('C18', 'Models built from B-splines have the values of the B-splines',
    'A model built from knots and B-spline coefficients gives, at any time '
    'of its interval including the knots (of any multiplicity) and end '
    'points, the B-spline sum and its time derivatives per year. Name, source, order, degrees and '
    'breaks follow from the input.',
    'knots, orders, B-spline coefficients, derivatives, times',
    'No test builds a model from B-splines with more than one order.',
    ['chaos.py', 'model_utils.py'],
    [('construction', 'chaos.py BaseModel.from_bspline'),
     ('conversion', 'model_utils.py pp_from_bspline')],
    'Hypothesis; Cox-de Boor recursion as oracle',
    'First and last knots with the full multiplicity, as documented.')

add('C19', 'MAT-files of CHAOS models are saved and loaded without loss',
    'A complete CHAOS model (time-dependent, static, external fields, '
    'offsets, Euler angles and pre-rotation, calibration) saved as MAT-file '
    'and loaded again has all the same parts, also if some parts are absent '
    'and for any number of satellites, bins, breaks and any polynomial '
    'order. MAT-files of both formats written by other programs are loaded '
    'with every value in its place, satellites named by the given or default '
    'names, and the model name from the argument or file name. Single '
    'models are written in the pp-form of MATLAB.',
    'sizes of every part, absent parts, satellites, names, file formats, '
    'nested structures',
    'The tests need the CHAOS model file and save and load that one.',
    ['chaos.py', 'data_utils.py'],
    [('reader', 'chaos.py load_CHAOS_matfile, CHAOS.from_mat; data_utils.py '
      'load_matfile'),
     ('writer', 'chaos.py CHAOS.save_matfile, Base.save_matfile, '
      'Base.to_ppdict')],
    'Hypothesis; round trips, independent writer, pp-form interpreter as '
    'oracle',
    'New files only; what the format can hold (m=0 GSM coefficients, '
    'cryosat-2_1 calibration).')

add('C20', 'The complete model is the sum of the requested sources',
    'Calling a complete model gives the vector sum of the fields of the '
    'requested sources (time-dependent, static, GSM and SM, internal and '
    'external), for every subset in any order, the short forms internal '
    'and external, any broadcastable times and positions, RC indices and '
    'truncations. Without truncation the documented default degrees apply, '
    'and a requested source that is unknown or that the model lacks raises an '
    'error.',
    'models, subsets of sources, positions, times, RC indices, truncations',
    'The tests compare a single call of one model with its own parts.',
    ['chaos.py'],
    [('sum over sources', 'chaos.py CHAOS.__call__')],
    'Hypothesis; sum of independently computed single sources',
    'The single sources are decided by C17 and C21.')

add('C21', 'External fields: GSM and SM coefficients rotate and induce',
    'The coefficients of the external field given in GSM and SM frames are, '
    'at any time, those rotated to the geographic frame by the Fourier '
    'series of the configured spectra, and the induced internal ones follow '
    'from the induced spectra; the SM part adds the RC index of the time '
    '(from file or given) and the piecewise constant offsets to the '
    'degree-1 terms. Field values are the harmonic expansion of these '
    'coefficients for both sources and any truncation. Times outside of the '
    'offsets or of the modelled period still give values, with a warning; '
    'times outside of the RC file and unknown sources raise an error; and '
    'the built-in spectra describe the rotation of the physical frames.',
    'coefficients, spectra, offsets, RC indices, times, truncations, sources, '
    'positions',
    'The tests compare with stored results at few times with default '
    'spectra.',
    ['chaos.py', 'coordinate_utils.py'],
    [('GSM', 'chaos.py CHAOS.synth_coeffs_gsm, CHAOS.synth_values_gsm'),
     ('SM', 'chaos.py CHAOS.synth_coeffs_sm, CHAOS.synth_values_sm')],
    'Hypothesis; independent re-implementation of the documented formulas, '
    'physical frames as second oracle',
    'Built-in spectra are compared within the accuracy of 20 frequencies.',
    over=('inputs', 'configurations'))

add('C22', 'The RC index is read faithfully and used at the right time',
    'Every line of an RC-index file is read with its time, values and flag, '
    'with times as numbers or dates, and the HDF5 file converted from it '
    'holds the same. A model uses, at each time inside of the file, the RC '
    'index interpolated linearly between the neighbouring lines, external '
    'and induced parts in their places; outside of the file no index is made '
    'up.',
    'files with any times, values, flags, headers; times at lines, between '
    'them, at the ends and outside',
    'The tests read one downloaded file (network) only.',
    ['data_utils.py', 'chaos.py'],
    [('reader', 'data_utils.py load_RC_datfile'),
     ('converter', 'data_utils.py save_RC_h5file'),
     ('use', 'chaos.py CHAOS.synth_coeffs_sm')],
    'Hypothesis; generated files with known content, linear interpolation '
    'as oracle',
    'Strictly increasing times in the file.',
    over=('inputs', 'configurations'))

add('C23', 'Historical and IGRF model files load as the model they describe',
    'COV-OBS, gufm1, CALS7K and IGRF files of any degree, spline order, '
    'breaks and number layout load as the time-dependent model they '
    'describe: the coefficients at any time of the interval are the spline '
    'of the file (linear interpolation between calendar years for IGRF, with '
    'the predictive secular variation at the end). Degrees, orders and names '
    'are in their places.',
    'file contents: degrees, spline orders, knots, values, layouts',
    'The tests load one file each (if available) and look at the plot.',
    ['chaos.py'],
    [('readers', 'chaos.py load_CovObs_txtfile, load_gufm1_txtfile, '
      'load_CALS7K_txtfile, load_IGRF_txtfile')],
    'Hypothesis; independent writer of the formats, B-spline reference',
    'Files follow the published layouts.')

add('C24', 'Euler angles of a satellite come from its own bins',
    'The Euler angles at any times are those of the time bin of the '
    'requested satellite, whatever the bins of the other satellites are; a '
    'pre-rotation is not applied but reported in a warning with the angles '
    'of that satellite. Outside of the bins the angles of the first or last '
    'bin hold unless extrapolation is switched off, derivatives are zero, '
    'and an unknown satellite raises an error.',
    'satellites, bins, angles, pre-rotations, times',
    'The tests look at one satellite of one model.',
    ['chaos.py'],
    [('per-satellite models', 'chaos.py CHAOS.__init__, '
      'CHAOS.synth_euler_angles')],
    'Hypothesis; table lookup as oracle',
    'At a border the later bin counts.')

add('C25', 'The configuration behaves like a validated dictionary',
    'Any sequence of settings, resets, context managers (nested, left '
    'normally or by an exception), saving and loading leaves every setting '
    'at the value a plain dictionary with the same history has; defaults are '
    'never altered. Only known keys and values of the right type are '
    'accepted, and a refused value changes nothing. A setting acts on the '
    'computations while it is set and no longer.',
    'histories of operations, values of every type',
    'Histories of operations are unbounded; the tests set and reset one '
    'value.',
    ['config_utils.py'],
    [('validation', 'config_utils.py BasicConfig.__setitem__'),
     ('context', 'config_utils.py BasicConfig.context'),
     ('files', 'config_utils.py BasicConfig.save, BasicConfig.load')],
    'Hypothesis; model-based operation sequences against a dictionary',
    'file.RC_index points to an existing file (the built-in one is not in '
    'the source tree).',
    over=('histories', 'configurations'),
    state=[('basicConfig', 'the settings of the package',
            'config_utils.py basicConfig')])

add('C26', 'Figures show the data they are labelled with',
    'The maps, time series and spectra that models plot contain the '
    'component values of the model itself at the plotted positions, times '
    'and degrees, with titles and units of the component and derivative '
    'shown, for any truncation, derivative, radius, source and frame. '
    'The plot functions draw as many panels as arrays are given, each with '
    'its own data, and leave the given data unchanged.',
    'models, truncations, derivatives, radii, positions, options',
    'The tests only run some plots without looking at the data.',
    ['plot_utils.py', 'chaos.py'],
    [('figures', 'plot_utils.py plot_timeseries, plot_maps, '
      'plot_power_spectrum'),
     ('data', 'chaos.py plot_timeseries, plot_maps, plot_power_spectrum, '
      'plot_timeseries_tdep, plot_maps_tdep, plot_maps_static, '
      'plot_maps_external')],
    'Hypothesis; data of the Matplotlib artists against model values',
    'Data, titles, units and first limits only; no pixels.')

add('C27', 'Computations change neither their input nor later results',
    'No computation, plot or save changes the arrays, lists or models given '
    'to it, and the same request gives the same numbers again whatever was '
    'computed before with the same model. The result for an array is that '
    'of its elements, and does not depend on whether numbers are integers or '
    'floats, or on memory layout or write protection of the array.',
    'functions, array shapes, dtypes and layouts; histories of calls on one '
    'model',
    'Histories and layouts are unbounded; the tests call each function once '
    'on fresh arrays.',
    ['chaos.py', 'model_utils.py', 'coordinate_utils.py', 'data_utils.py'],
    [('copies of the input', 'all public functions')],
    'Hypothesis; call histories against fresh models, input snapshots, '
    'layout and element metamorphic relations',
    'Bit-for-bit repetition; rounding for other layouts.',
    over=('histories', 'inputs'))

add('C28', 'Calls in several threads give the results of single calls',
    'Computations and loading of files that run at the same time in several '
    'threads of one process, on the same model, the same arrays or different '
    'ones, give exactly the results (or errors) of the same calls one after '
    'another, however their execution is interleaved. No call changes, even '
    'temporarily, the model, the configuration or the arrays given to it.',
    'pairs and triples of calls on shared models and arrays; schedules of '
    'their interleaving',
    'Unit tests are sequential; a race shows only for particular schedules.',
    ['chaos.py', 'model_utils.py', 'coordinate_utils.py', 'data_utils.py'],
    [('no shared work arrays or temporary changes of state',
      'all public functions')],
    'Hypothesis; generated schedules carried out line by line, against a '
    'pristine process',
    'Two or three threads which change between the lines of the package; '
    'figures and writing of files are left out.',
    over=('schedules', 'inputs'))

add('C29', 'An interrupted call leaves nothing behind',
    'If a computation, or the loading of a file, ends early with an exception '
    'that comes from anywhere within it (an interrupt by the user, a lack of '
    'memory), the model, the configuration and the arrays given to it are '
    'as before, and the same and other calls give the same results afterwards '
    'as if the interrupted call had never been made.',
    'calls, arguments, the line at which the exception occurs, later calls',
    'Tests never interrupt a call; each call has hundreds of points at which '
    'it may end.',
    ['chaos.py', 'model_utils.py', 'coordinate_utils.py', 'data_utils.py'],
    [('no temporary changes of state', 'all public functions')],
    'Hypothesis; exceptions injected at generated lines, against a pristine '
    'process',
    'Exceptions at lines that compute something; saving of files is left '
    'out.',
    over=('crash_points', 'histories', 'inputs'))
