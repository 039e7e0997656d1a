"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=None)))
A='doatools/model/arrays.py'; S='doatools/model/sources.py'; PE='doatools/model/perturbations.py'
p('C01','Array designs place their sensors exactly where their definition says',
 "For every admissible parameter set, each built-in array design (ULA, nested, co-prime in both modes, minimum redundancy for every supported size 1..20, circular, rectangular, general grid given by spacings or bases) has exactly the documented number of elements at the documented positions: a grid-based design's element is its integer index vector times the grid bases, a circular array's n elements are spread uniformly over the full circle starting on the x-axis. The built-in minimum redundancy designs have hole-free difference sets. Inadmissible parameters (non-co-prime pair, unknown mode, unsupported size, wrong dimensions) are rejected with ValueError, and options common to all designs (name, perturbations, element) take effect on every design.",
 ['inputs','configurations'],'all element counts, spacings, radii, bases and modes',
 'The tests construct one or two sizes of each design; positions for all sizes, spacings and modes, and the tabulated designs, are never checked.',
 [A],[('constructors of the array design classes',A),('index times bases',A+' GridBasedArrayDesign.__init__'),('preset table',A+' _MRLA_PRESETS')],
 observe=['element_locations','element_indices','size','ndim','d0','bases'])
p('C02','Steering matrix realises the array model with exactly the selected perturbations',
 "For any array, sources and wavelength, entry (i,k) of the steering matrix is exp(j * phase delay) evaluated at the element locations including the selected location errors, scaled by the element response where the element is not an isotropic scalar one, and then transformed by the selected gain errors (factor 1+g_i), phase errors (factor exp(j*phi_i)) and mutual coupling (left multiplication), applied in the order they were attached. Selection 'all' uses every perturbation, 'known' exactly those marked known, 'none' no perturbation at all, and anything else is rejected with ValueError. Vector elements give an L x M x K tensor, flattened to LM x K (output-major) on request.",
 ['inputs','configurations'],'all arrays, source placements, wavelengths, ordered sets of perturbations with any known flags, and selections',
 'The tests compare one unperturbed co-prime array and two custom elements against stored numbers; test_with_perturbations is empty, so no perturbation is ever checked in a steering matrix.',
 [A,PE,'doatools/model/array_elements.py'],[('steering_matrix',A),('perturb_sensor_locations / perturb_steering_matrix',PE),('calc_spatial_response','doatools/model/array_elements.py')],
 observe=['ArrayDesign.steering_matrix'])
p('C03','Phase delays follow the propagation geometry in every unit and dimension',
 "For every source kind and every 1D, 2D or 3D sensor location the phase delay matrix equals 2*pi/wavelength times the geometric path advance: x*sin(t)+y*cos(t) for far-field 1D sources (any z ignored), the inner product of the sensor location with the unit vector of azimuth/elevation for far-field 2D sources, and distance to the first sensor minus distance to the sensor for near-field sources. The value depends only on the physical source direction, not on the unit (radians, degrees, sine) it is expressed in. Sensor locations of any other dimension are rejected with ValueError.",
 ['inputs'],'all sensor locations, source locations, units, wavelengths',
 'The tests use a handful of fixed angles and one sensor layout per source kind.',
 [S],[('phase_delay_matrix of the three source placements',S)],observe=['phase_delay_matrix'])
p('C04','Steering matrix derivatives are the exact derivatives',
 "When derivatives are requested for far-field 1D sources, the returned matrix is exactly the partial derivative of the returned steering matrix's k-th column with respect to the k-th source location, expressed in the unit of the source placement (radians, degrees or sine), for 1D, 2D and 3D sensor locations and under every selected perturbation. Source kinds without derivative support and non-isotropic or non-scalar elements are rejected with an error instead of returning wrong derivatives.",
 ['inputs','configurations'],'all arrays, perturbations, source locations and units',
 'Derivatives are compared with stored numbers for one unperturbed array in radians only; degrees, sine, planar arrays and perturbations are not reached.',
 [S,A,PE],[('phase derivative',S+' _phase_delay_matrix_rad/_sin'),('chain rule',A+' steering_matrix'),('perturb_steering_matrix on DA',PE)],
 observe=['steering_matrix(..., compute_derivatives=True)'])
p('C05','Perturbing an array never changes the original and replaces by type',
 "Deriving a perturbed or perturbation-free copy of an array leaves the original array's name, element locations and perturbations untouched; the copy keeps every perturbation of the original except those of a type being supplied, which are replaced, and a perturbation-free copy has none. Constructing an array with two perturbations of one type, or attaching a perturbation whose size does not fit the array or whose kind does not fit its elements, raises an error. Actual element locations are the nominal ones plus the location errors (missing coordinates counted as zero), while the reported nominal locations never change.",
 ['inputs','histories'],'all arrays, perturbation sets given as lists or dictionaries, and sequences of derivations',
 'The tests follow one fixed chain of updates on a 5-element ULA and never re-inspect the original array.',
 [A,PE],[('get_perturbed_copy / get_perturbation_free_copy',A),('_add_perturbation_from_list',A),('is_applicable_to',PE),('LocationErrors.perturb_sensor_locations',PE)],
 [('_perturbations','type -> perturbation map of an array',A)],['is_perturbed','perturbations','actual_element_locations','element_locations'])
p('C06','Source placements validate, select and convert without loss',
 "A source placement only ever holds locations inside the documented range of its unit: out-of-range locations, unknown units and wrongly shaped inputs are rejected with ValueError at construction. Indexing with an integer yields that source's location, and indexing with a slice, list, index array or boolean mask yields an independent placement of the same kind and unit holding exactly the selected locations in order, so that modifying it never affects the original. Converting to another unit preserves every physical direction, and converting back restores the original values.",
 ['inputs'],'all location vectors, units and selection keys',
 'Tests index with a few fixed keys, convert fixed angles and never test a rejected out-of-range location.',
 [S,'doatools/utils/conversion.py'],[('constructors',S),('__getitem__',S),('as_unit',S),('convert_angles','doatools/utils/conversion.py')],
 observe=['locations','units','as_unit','__getitem__'])
p('C07','Spherical coordinates and angle conversions are geometrically consistent',
 "For every source placement and reference location the reported range, azimuth and elevation describe the same point: rebuilding Cartesian coordinates from them gives the source position relative to the reference (near field), or the correct direction at infinite range (far field, where a broadside angle t corresponds to azimuth pi/2 - t). Converting Cartesian rows of 1, 2 or 3 coordinates to spherical ones is exact for all coordinates, and converting azimuth/elevation pairs to broadside angles gives the angle whose sine is the direction cosine along the x-axis.",
 ['inputs'],'all coordinates, source placements, units, reference locations',
 'Tests check a few fixed points.',
 [S,'doatools/utils/conversion.py'],[('calc_spherical_coords',S),('cart2spherical, ae2broad, convert_angles','doatools/utils/conversion.py')],
 observe=['calc_spherical_coords','cart2spherical','ae2broad','convert_angles'])
CO='doatools/model/coarray.py'
p('C08','Difference coarray and weight function count exactly the sensor pairs',
 "For m sensor locations the difference list holds location i minus location j in row i+j*m for all m^2 ordered pairs. For every 1D grid-based array the weight of a difference d is exactly the number of ordered pairs of elements whose indices differ by d (zero if none), its index list is exactly the positions of those pairs in ascending order, the reported differences are the distinct ones in ascending order with matching weights. The central ULA extends to the first non-negative difference missing from the coarray, so its one-sided size is that integer and its full size twice that minus one; other arrays are rejected with ValueError.",
 ['inputs'],'all 1D grid-based arrays (any integer element indices) and all differences',
 'The tests check a ULA and one co-prime array.',
 [CO],[('compute_location_differences',CO),('WeightFunction1D._build_map, weight_of, indices_of, get_central_ula_size',CO)],
 [('_index_map','difference -> list of positions',CO)],['WeightFunction1D'])
EC='doatools/estimation/coarray.py'
p('C09','Coarray augmentation averages redundancies and yields the virtual ULA covariance',
 "The coarray selection matrix averages, for each difference of the central ULA (or only its non-negative half), exactly the entries of vec(R) with that difference, each with the same weight. For every covariance input of matching size, direct augmentation returns the Mv x Mv matrix whose (r,c) entry is the redundancy-averaged correlation at lag r-c, and spatial smoothing returns that matrix times its conjugate transpose divided by Mv; hence for the exact covariance of uncorrelated sources in white noise direct augmentation returns the exact covariance of the virtual ULA. Inputs of the wrong shape and unknown methods are rejected with ValueError, and the virtual ULA has the array's spacing and Mv elements.",
 ['inputs','configurations'],'all 1D grid-based arrays, covariance matrices and both methods',
 'One co-prime array with one covariance matrix is tested, through a complete MUSIC run.',
 [EC,CO],[('CoarrayACMBuilder1D.transform',EC),('get_coarray_selection_matrix',CO)],observe=['CoarrayACMBuilder1D','get_coarray_selection_matrix'])
G='doatools/estimation/grid.py'
p('C10','Search grids enumerate the Cartesian product of their axes in order',
 "Every search grid reports as its sources exactly the Cartesian product of its axes with the first axis varying slowest, in the grid's unit, so that the source at flat index f has the coordinates obtained by unravelling f over the grid's shape; size is the product of the shape. Axes generated from start, stop and size are evenly spaced, include the start and exclude the stop, with the documented full field of view as default; a 1D grid given several segments is the concatenation of the segments. All three grid kinds can be constructed and used.",
 ['inputs','configurations'],'all starts, stops, sizes, axes and units',
 'Tests cover default and single-segment grids; the near-field grid and multi-segment grids are never constructed.',
 [G,'doatools/utils/math.py'],[('constructors and _create_source_placement',G),('cartesian','doatools/utils/math.py')],observe=['axes','shape','size','source_placement'])
p('C11','Grid refinement subdivides exactly the neighbourhood of the chosen point',
 "Refining any grid at a coordinate with a given density and span gives axes that run evenly from the grid value span steps below to span steps above the coordinate, clipped to the grid's ends, with exactly density subdivisions per original step, and a grid of the same kind and unit; invalid density, span or coordinate length raises ValueError. A refinement therefore contains the refined point of a uniform grid and never leaves the original grid's extent, and refining at several coordinates gives the individual refinements in order.",
 ['inputs'],'all grids, coordinates, densities, spans',
 'Two grids with fixed coordinates are tested; the near-field grid is not.',
 [G],[('create_refined_axes_at, create_refined_grid(s)_at',G)],observe=['create_refined_grid_at','create_refined_grids_at'])
C='doatools/estimation/core.py'
p('C12','Spectrum estimators report the k highest peaks of the spectrum on the grid',
 "For every spectrum-based estimator the spectrum is evaluated once per grid point and returned in the grid's shape; the estimator reports resolved exactly when the peak finder finds at least k peaks, and then returns k sources of the grid, in grid order, located at peaks such that no unreported peak is higher; otherwise it returns no estimates. Refinement replaces each estimate by a maximiser of the spectrum over successively refined grids around that estimate, leaving the number and order of estimates unchanged and never touching the search grid. Results do not depend on whether caching is enabled or on previous calls.",
 ['inputs','histories'],'all spectra, grids, peak finders, k, refinement settings, and sequences of calls',
 'Tests run four estimators on one well-separated scenario each.',
 [C],[('_estimate, _refine_estimates, _get_atom_matrix',C)],[('_atom_matrix','cached steering matrix',C)],['estimate(...)'])
p('C13','Spectra equal their published formulas for every covariance',
 "For every covariance matrix, array and source number the spectra equal their definitions at each grid point with steering vector a under the known perturbations: Bartlett a^H R a, MVDR 1/(a^H R^-1 a), MUSIC 1/||En^H a||^2 and Min-Norm 1/|d^H a|^2 with En the eigenvectors of the M-k smallest eigenvalues and d the minimum-norm noise subspace vector with first entry one. Covariances that are not M x M and source numbers the method cannot resolve (more than M-1 for the subspace methods) are rejected with ValueError.",
 ['inputs'],'all covariance matrices, arrays, source numbers',
 'Only peak locations for one scenario are compared; Min-Norm has no test.',
 ['doatools/estimation/music.py','doatools/estimation/min_norm.py','doatools/estimation/beamforming.py',C],
 [('f_music','doatools/estimation/music.py'),('MinNorm.estimate','doatools/estimation/min_norm.py'),('f_bartlett, f_mvdr','doatools/estimation/beamforming.py'),('get_noise_subspace, ensure_*',C)],observe=['estimate(..., return_spectrum=True)'])
p('C14','Root-MUSIC returns the k noise-polynomial roots closest to the unit circle',
 "Root-MUSIC forms the polynomial whose coefficients are the diagonal sums of the noise subspace projector, keeps of its conjugate-reciprocal roots one per pair, inside or on the unit circle, and returns the directions of the k kept roots closest to the circle, or reports unresolved if fewer than k remain. A root with phase w is reported as the broadside angle whose sine is w*wavelength/(2*pi*d0), in ascending order and in the requested unit, with d0 defaulting to half a wavelength. Non-square covariances and more than M-1 sources raise ValueError.",
 ['inputs'],'all covariance matrices, k, spacings, units',
 'One scenario in radians is tested.',
 ['doatools/estimation/music.py',S],[('RootMUSIC1D.estimate','doatools/estimation/music.py'),('from_z',S)],observe=['RootMUSIC1D.estimate'])
p('C15','ESPRIT solves the weighted shift-invariance equation',
 "ESPRIT takes the k dominant eigenvectors of R, selects their first and last M-displacement rows, weights both selections with the same row weights, and returns the directions given by the eigenvalues of the least-squares or total-least-squares rotation between them, so that for the exact covariance of k uncorrelated sources in white noise it returns exactly the true directions for every displacement, formulation and positive row weighting. The default weights are the square roots of 1,2,...,2,1; the inter-element spacing is scaled by the displacement. Invalid displacement, too many sources, unknown formulation or unsuitable weights raise ValueError.",
 ['inputs','configurations'],'all covariance matrices, k, displacements, formulations, row weights, spacings, units',
 'The single test compares with 1% tolerance for a 24-element array with almost broadside sources, which hides weighting errors.',
 ['doatools/estimation/esprit.py',S],[('Esprit1D.estimate, get_default_row_weights','doatools/estimation/esprit.py'),('from_z',S)],observe=['Esprit1D.estimate'])
SN='doatools/estimation/source_number.py'
p('C16','Source number detectors minimise their information criterion',
 "AIC and MDL return the k in 0..M-1 that minimises N(M-k)*log(arithmetic mean / geometric mean of the M-k smallest eigenvalues) plus k(2M-k), respectively plus (k(2M-k)+1)/2*log(N), and SORTE returns the k that minimises the ratio of successive variances of the eigenvalue gaps. Passing a Hermitian covariance matrix gives the same answer as passing its ascending eigenvalues. SORTE rejects fewer than four eigenvalues with ValueError.",
 ['inputs'],'all positive ascending eigenvalue vectors / covariance matrices and snapshot counts',
 'An ideal and a random case with fixed array size are tested.',
 [SN],[('ld_stat, aic, mdl, sorte',SN)],observe=['aic','mdl','sorte'])
p('C17','Spatial smoothing and l1-SVD reduction compute their definitions',
 "Spatial smoothing with l subarrays returns the average of the l overlapping (M-l+1)-sized principal submatrices, and with forward-backward averaging the mean of that matrix and its conjugated 180-degree rotation, for real and complex inputs; the result stays Hermitian for Hermitian input and l outside 1..M raises ValueError. The l1-SVD reduction returns the k dominant left singular vectors scaled by their singular values.",
 ['inputs'],'all matrices and l, k',
 'One real and one complex 4 x 4 example.',
 ['doatools/estimation/preprocessing.py'],[('spatial_smooth, l1_svd','doatools/estimation/preprocessing.py')],observe=['spatial_smooth','l1_svd'])
R='doatools/performance/crb.py'
p('C18','Cramer-Rao bounds equal their closed-form expressions',
 "For every array (with its perturbations), far-field 1D sources, source powers, noise variance and snapshot number, the stochastic and deterministic bounds equal sigma/(2N) [Re(H o (P A^H R^-1 A P)^T)]^-1 and sigma/(2N) [Re(H o P^T)]^-1 with H = D^H (I - P_A) D, and the uncorrelated-source bound equals the location block of the inverse Fisher information whose entries are tr(R^-1 dR R^-1 dR) over locations, powers and noise variance. Bounds are symmetric and inversely proportional to the number of snapshots. Sources of another kind raise ValueError.",
 ['inputs','configurations'],'all arrays, source placements, powers, noise variances, snapshot counts',
 'Stored numbers for one array; the formula is not checked for other shapes, units, perturbations or correlated sources.',
 [R],[('crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d',R)],observe=['crb_*'])
MS='doatools/performance/mse.py'
p('C19','Asymptotic error covariances equal their closed-form expressions',
 "For every array, far-field 1D sources, powers, noise variance and snapshot number, the asymptotic MUSIC error covariance equals sigma/(2N) (H o I)^-1 Re(H o B^T) (H o I)^-1 with H = D^H(I-P_A)D and B = P^-1 + sigma P^-1 (A^H A)^-1 P^-1, and the coarray-MUSIC one equals Re(Xi^H (R kron R^T) Xi)/N built from the virtual ULA that has the physical array's own inter-element spacing. Too many sources, sources of another kind, or (for coarray MUSIC) a perturbed array raise ValueError; selecting perturbations affects exactly the steering matrices used.",
 ['inputs','configurations'],'all arrays and spacings, source placements, powers, noise variances, snapshot counts',
 'Stored numbers for one array with half-wavelength spacing.',
 [MS,CO],[('ecov_music_1d, ecov_coarray_music_1d',MS)],observe=['ecov_*'])
p('C20','Performance functions treat equivalent power inputs and output modes alike',
 "A scalar source power, the corresponding vector or list, and the corresponding diagonal matrix give identical results wherever several forms are accepted, and a full matrix is used as is (or through its diagonal where only uncorrelated sources are supported). Inputs whose length or shape does not match the number of sources raise ValueError. Output mode 'full' returns the matrix, 'diag' exactly its diagonal and 'mean_diag' the mean of its diagonal; any other mode raises ValueError.",
 ['inputs','configurations'],'all powers, source counts, output modes',
 'Tests use one form per function.',
 ['doatools/performance/utils.py',R,MS],[('unify_p_to_matrix, unify_p_to_vector, reduce_output_matrix','doatools/performance/utils.py')],observe=['p / P argument','return_mode'])
ML='doatools/estimation/ml.py'
p('C21','Maximum-likelihood estimators minimise the right objective from the given start',
 "The AML, CML and WSF estimators hand the optimiser exactly their published negative log-likelihood as a function of the source locations (log det of the fitted covariance, tr(P_A_perp R), tr(P_A_perp M) with the optimally weighted signal subspace), using the known perturbations, start from the given initial locations, bound each location by its unit's valid range, and return the optimiser's solution as a placement of the initial guess's kind and unit, or no estimate if the optimiser fails. The stand-alone stochastic likelihood equals log det S + tr(S^-1 R) for every positive definite model covariance S. Any valid placement works as initial guess and is left unchanged; too many sources or a mismatching covariance raise ValueError.",
 ['inputs','configurations'],'all arrays, covariances, initial guesses, units',
 'No test touches this module.',
 [ML],[('_eval_nll of each estimator, estimate, f_nll_stouc',ML)],[('_estimates','working copy of the estimates',ML)],['estimate','get_last_estimates','f_nll_stouc'])
SP='doatools/estimation/sparse.py'; L1='doatools/optim/l1lsq.py'
p('C22','Sparse estimators pose exactly the documented convex problem',
 "The sparse covariance matching estimator solves, for each supported formulation, the non-negative l1-regularised least-squares problem between vec(R) and the Khatri-Rao product of conjugated and plain steering matrices, augmented by a noise column unless the noise variance is known (in which case it is subtracted first); the group-sparse estimator solves the Frobenius plus row-norm problem. The spectrum is the solution restricted to the grid (row norms for the group problem). A non-optimal solve yields a zero solution with a warning, and wrong input sizes, missing noise variance, unknown formulations and requested refinement raise ValueError.",
 ['inputs','configurations'],'all arrays, grids, covariances / snapshots, regularisation parameters, formulations',
 'No test touches these modules.',
 [SP,L1],[('SparseCovarianceMatching, GroupSparseEstimator',SP),('L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem',L1)],observe=['estimate','solve'])
SG='doatools/model/signals.py'
p('C23','Simulated signals and snapshots follow the stated data model',
 "A stochastic signal emits a dim x n sample C^(1/2) w with w circular white of unit variance, so that its covariance is C for scalar, vector and matrix C; a random-phase signal emits samples of exactly the given amplitudes with phases uniform on (-pi, pi], for scalar and vector amplitudes. Snapshots equal steering matrix (with all perturbations) times source samples plus, if given, noise samples, and the returned sample covariance is Y Y^H divided by the number of snapshots. Covariances or amplitudes of the wrong size raise ValueError.",
 ['inputs','configurations'],'all dimensions, covariances, amplitudes, snapshot counts and all random draws',
 'Tests estimate one covariance statistically and one vector of amplitudes.',
 [SG,'doatools/model/snapshots.py','doatools/utils/math.py'],[('emit',SG),('get_narrowband_snapshots','doatools/model/snapshots.py'),('randcn','doatools/utils/math.py')],observe=['emit','get_narrowband_snapshots'])
U='doatools/utils/math.py'
p('C24','Matrix helpers satisfy their algebraic definitions for all shapes',
 "For matrices of every compatible shape: vectorisation stacks columns, the squared modulus equals re^2+im^2, the Khatri-Rao product's column l is the Kronecker product of the two l-th columns (differing column counts raise ValueError), the projector of a full-column-rank matrix is Hermitian, idempotent and leaves the matrix's columns fixed, and the Cartesian product lists every combination once with the first input varying slowest.",
 ['inputs'],'all shapes and entries, real and complex',
 'A few fixed small matrices.',
 [U],[('vec, abs_squared, khatri_rao, projm, cartesian',U)],observe=['doatools.utils.math'])
p('C25','Unique-row extraction keeps one representative per tolerance class',
 "For every input matrix the returned rows are rows of the input in order of first occurrence, every input row agrees with some returned row within atol + rtol*max|x| in all columns, and no two returned rows agree within that tolerance. Returned indices identify exactly the returned rows, sorting only permutes rows (and indices alike) into lexicographic order, and an empty or non-matrix input is handled as documented.",
 ['inputs'],'all matrices and tolerances',
 'Two fixed matrices.',
 [U,CO],[('unique_rows',U),('compute_unique_location_differences',CO)],observe=['unique_rows','compute_unique_location_differences'])
p('C26','Public operations never modify caller data or share internal state',
 "No public operation (estimation, performance analysis, steering, preprocessing, conversion, perturbation, coarray and matrix helpers) modifies the arrays, source placements, grids or array designs passed to it, so calling it twice with the same inputs gives the same result. Accessors documented as copies (nominal element locations, element indices, coarray differences, index lists, last estimates) hand out data whose modification has no effect on later results.",
 ['inputs','histories'],'all inputs of the operations and all sequences of reading, modifying and calling again',
 'The tests compare outputs only and never re-read an input after the call.',
 ['doatools/estimation','doatools/performance','doatools/model','doatools/utils'],[('copies before in-place updates','spatial_smooth, perturb_sensor_locations, _refine_estimates, ml.estimate, esprit'),('copying accessors',A+', '+CO)],observe=['all public functions'])
p('C27','Plots show the given data on the given axes',
 "Plotting 1D spectra draws on the axes supplied by the caller each spectrum divided by its maximum (unchanged if not positive) against the grid's own axis; plotting a 2D spectrum draws it over the extent of the grid's axes with its first dimension along the horizontal (vertical when swapped) axis. Estimates and ground truth are marked at their own coordinates (swapped alike); spectra whose shape differs from the grid's and sources in another unit raise ValueError. Plotting an array marks the nominal element locations (or the unique coarray differences) and, when requested and the array has location errors, also the actual ones.",
 ['inputs','configurations'],'all spectra, grids, placements, arrays and option combinations',
 'No test touches the plotting package.',
 ['doatools/plotting/plot_spectrum.py','doatools/plotting/plot_array.py'],[('plot_spectrum_1d, plot_spectrum_2d, plot_spectrum','doatools/plotting/plot_spectrum.py'),('plot_array, plot_coarray','doatools/plotting/plot_array.py')],observe=['matplotlib calls'])
import os
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
