NOTES = ('All checks run the real package from /repo (rebuilt by /opt/vp/build.sh) under an explicit-state / '
         'bounded-exhaustive driver in mc/; no hooks in /repo are needed. VERIF_SEED is accepted but nothing is random: '
         'every enumeration is deterministic and complete within its stated bound.')

NOTE = ('Bounded: exhaustive over the enumerated space recorded in the evidence file (states, transitions, bounds), each '
        'trace executed on the real code and compared with an independent reference model. Trusts numpy/scipy and the '
        'installed astrometry.net helpers; says nothing beyond the bound. ')

PROPS = [
 dict(id='P01', title='Parameter vectors stay consistent under any freeze/thaw and set history',
  statement='For every parameterised object, after any sequence of freezing, thawing and setting parameters, the reported '
   'values, names, count, step sizes, lower/upper bounds, maximum steps and legality all describe the same thawed '
   'parameters in the same order, and the "all" variants describe every parameter. '
   'Setting parameters changes exactly the addressed values, single-parameter setting returns the old value, and frozen values never change unless '
   'addressed explicitly. Freezing, thawing (by index, name, object, "all but", recursively) changes exactly the named flags.',
  over=['histories', 'configurations'],
  quant='all freeze/thaw operations from every reachable freeze state (closed breadth-first search), and every set operation in each state, for 12 representative parameter trees',
  why='Tests freeze one or two particular parameters; the contract must hold in each of the 2^n freeze states and after any operation history.',
  files=['tractor/utils.py', 'tractor/ducks.py', 'tractor/ellipses.py', 'tractor/brightness.py'],
  mech=[('liquid flags and index mapping', 'tractor/utils.py NamedParams'), ('composition of sub-parameters', 'tractor/utils.py MultiParams'),
        ('value storage', 'tractor/utils.py ScalarParam, ParamList, NpArrayParams, MogParams')],
  tech='explicit-state BFS over freeze states of the real objects against a reference tree model', note=NOTE),
 dict(id='P02', title='Editing containers keeps parameters, frozen flags and members aligned',
  statement='After any sequence of appending, prepending, extending, removing, replacing or reordering members of a source '
   'catalog, an image collection, a parameter group or a Tractor, the parameter vector is exactly the concatenation of '
   'the thawed members in member order, and each member keeps its own frozen/thawed flag. '
   'Freezing all images or all catalog sources but one, and adding images or sources, behave accordingly.',
  over=['histories'],
  quant='every state reachable by container edits and freezes with at most 3 members (closed BFS), every edit from each',
  why='Tests build a container once; misaligned flags need an edit after a freeze, at a particular position.',
  files=['tractor/utils.py', 'tractor/engine.py'],
  mech=[('list delegation in parameter groups', 'tractor/utils.py MultiParams'), ('catalog and image lists', 'tractor/engine.py Catalog, Images, Tractor')],
  tech='explicit-state BFS over container edit histories against a list model', note=NOTE),
 dict(id='P03', title='Copies are faithful and independent in every frozen/thawed state',
  statement='Copying any source, brightness, position, shape, PSF, WCS, photometric calibration, sky, catalog or image yields an object of '
   'the same type with the same values, the same frozen/thawed flags at every level and the same observable behaviour '
   '(rendering, coordinate transforms, counts, sky values). Afterwards, changing either one never affects the other.',
  over=['configurations', 'histories'],
  quant='every freeze pattern per node x every single mutation x both directions, over one instance of each of ~50 object kinds',
  why='Tests copy a few objects with everything thawed and look at a few values; dropped flags or shared arrays need a frozen state or a later mutation.',
  files=['tractor/utils.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/wcs.py', 'tractor/sky.py', 'tractor/splinesky.py', 'tractor/brightness.py', 'tractor/image.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/motion.py', 'tractor/sersic.py'],
  mech=[('copy methods', 'copy() in each of the listed files')],
  tech='exhaustive enumeration of freeze patterns and mutations on the real objects; behavioural snapshots compared', note=NOTE),
 dict(id='P04', title='Gaussian priors and legality agree in every frozen/thawed state',
  statement='For every freeze state and every set of Gaussian priors on parameters, the log-prior of an object, group, source, catalog or Tractor is the sum of '
   'the Gaussian terms of its active members, and the least-squares prior rows and the listed (index, mean, sigma) terms '
   'describe exactly the thawed parameters, by their position in the parameter vector; a prior on a parameter that does not exist is refused. '
   'Illegal values (ellipticity outside the unit circle, negative radius, profile index out of range) give a log-prior of minus infinity at every enclosing level.',
  over=['configurations', 'histories'],
  quant='all freeze states (all subsets of flags up to 11-14 flags) x sets of prior terms on 6 parameter trees; grid of legal/illegal shapes',
  why='Tests attach a prior to fully thawed objects; index errors need a prior on one parameter while another is frozen.',
  files=['tractor/utils.py', 'tractor/engine.py', 'tractor/ellipses.py', 'tractor/sersic.py'],
  mech=[('prior terms', 'tractor/utils.py GaussianPriorsMixin'), ('composition', 'tractor/utils.py MultiParams.getLogPrior, getLogPriorDerivatives, getGaussianPriors')],
  tech='exhaustive enumeration of freeze states x prior sets against a reference sum', note=NOTE),
 dict(id='P05', title='Image-patch arithmetic, clipping and placement act pixel by pixel',
  statement='A patch behaves as a map from absolute pixel positions to values that is zero elsewhere: adding, subtracting, scaling, '
   'copying, clipping to an image or region, trimming and adding into an image give exactly the pixelwise result for every '
   'relative placement, including partial and no overlap. Operands that are not modified in place are unchanged, and overlap tests, '
   'extents, slices and pixel indices agree with that map.',
  over=['inputs', 'histories'],
  quant='all placements, sizes up to 3 (4 thorough), all relative offsets of pairs, all zero patterns up to 2x3 (3x3), all operation histories of length 4 (5)',
  why='Tests exercise a couple of placements; off-by-one errors live at particular edges and corner overlaps.',
  files=['tractor/patch.py'],
  mech=[('union-box arithmetic', 'tractor/patch.py Patch.performArithmetic'), ('clipping', 'tractor/patch.py Patch.clipTo, clipToRoi, trimToNonZero'),
        ('placement', 'tractor/patch.py Patch.addTo, getSlices, getPixelIndices')],
  tech='bounded-exhaustive enumeration of geometries and operation histories against a sparse-map model', note=NOTE),
 dict(id='P06', title='Model images are the sky plus the sum of the sources, whatever came before',
  statement='The model image of each exposure is its sky plus the sum, over the requested sources, of the source profile convolved with '
   'that exposure\'s PSF, placed by its WCS and scaled by its photometric calibration, with or without sky and for any subset of sources. '
   'This depends only on the current parameter values: rendering, derivatives, log-probabilities, freezing, masking and parameter or source '
   'edits done earlier leave no trace. Asking for model images, patches or derivatives changes no parameter and no image data.',
  over=['inputs', 'histories'],
  quant='all ordered lists of up to 2 (3) sources over 6 kinds x 6 placements x 3 images x all subsets; all operation histories of length 3 (4) over 16 operations',
  why='Tests render one or two fixed scenes; stale state needs a particular order of edits and observations.',
  files=['tractor/engine.py', 'tractor/image.py', 'tractor/galaxy.py', 'tractor/pointsource.py', 'tractor/mixture_profiles.py', 'tractor/psf.py'],
  mech=[('composition', 'tractor/engine.py Tractor.getModelImage, getModelPatch'), ('profiles', 'tractor/galaxy.py, tractor/pointsource.py getUnitFluxModelPatch')],
  tech='bounded-exhaustive enumeration of scenes and operation histories against an independent renderer', note=NOTE),
 dict(id='P07', title='Rendering through a model mask equals the unrestricted rendering there',
  statement='For every kind of source and PSF and every mask rectangle or boolean pattern, rendering with a model mask returns exactly the '
   'footprint of the mask, with the values of the unrestricted rendering at every requested pixel (or nothing when there is no flux there). '
   'At the Tractor level, setting masks confines each listed source to its mask, drops sources without one when masks are required, '
   'and lifting the masks restores the unrestricted model. A source given a fixed size (halfsize, fixedRadius) is the unrestricted rendering cut to that size, in its model, unit-flux models and derivatives.',
  over=['inputs', 'configurations'],
  quant='all mask rectangles on a grid of corners x 6 source kinds x 8 PSF kinds x placements; all boolean patterns of a 3x3 block; all assignments of masks to sources',
  why='Tests use one or two masks that contain the source; edge, partial and off-source masks take different code paths.',
  files=['tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/psf.py', 'tractor/mixture_profiles.py', 'tractor/mix.i', 'tractor/engine.py', 'tractor/patch.py'],
  mech=[('masked evaluation', 'tractor/mixture_profiles.py evaluate_grid_masked'), ('masks in the pixelised path', 'tractor/psf.py PixelizedPSF.getPointSourcePatch, tractor/galaxy.py'),
        ('assignment', 'tractor/engine.py Tractor.setModelMasks')],
  tech='bounded-exhaustive enumeration of mask geometries against the unrestricted rendering', note=NOTE),
 dict(id='P08', title='A subimage behaves exactly like that rectangle of its parent',
  statement='Cutting any rectangle out of an image, with any kind of WCS, PSF, sky and photometric calibration, gives an image whose pixels, errors, '
   'sky-to-pixel mapping, PSF, sky values, counts and rendered model images are those of the parent over that rectangle; a subimage of a subimage is the direct subimage. '
   'Shifted or scaled versions of PSFs, WCSs and skies evaluate as the original at the shifted or scaled position. '
   'The parent is left unchanged.',
  over=['inputs', 'configurations'],
  quant='all rectangles on a grid of corners x all WCS kinds x all PSF kinds x all sky kinds x photometric calibrations, nested one level',
  why='Tests never cut subimages; a sign or offset error shows only for an off-origin corner and one particular kind of calibration.',
  files=['tractor/image.py', 'tractor/shifted.py', 'tractor/psf.py', 'tractor/psfex.py', 'tractor/wcs.py', 'tractor/sky.py', 'tractor/splinesky.py'],
  mech=[('cutting', 'tractor/image.py Image.subimage'), ('shifting', 'tractor/shifted.py ShiftedPsf, ShiftedWcs; getShifted, shifted, shift in psf.py, wcs.py, sky.py')],
  tech='bounded-exhaustive enumeration of rectangles and calibrations; commutation of cutting with rendering', note=NOTE),
 dict(id='P09', title='There is one derivative per thawed parameter, equal to the model\'s derivative',
  statement='For every source, PSF and coordinate kind, every freeze state and with or without model masks, the derivatives reported for a source, a catalog, an image\'s sky '
   'or a whole Tractor are exactly one per thawed parameter, in parameter order, and each equals the true derivative of the rendered model image with respect to that parameter. '
   'Derivatives are confined to the mask and the image, and computing them changes no parameter, frozen flag or data.',
  over=['configurations', 'inputs'],
  quant='all freeze patterns of 9 source kinds x images (pixel/sky coordinates, mixture/pixelised PSFs) x placements x masks; all freeze patterns of Tractor, catalog and image levels',
  why='Tests check a few derivatives of fully thawed sources; misaligned or missing derivatives need particular frozen members or placements.',
  files=['tractor/engine.py', 'tractor/pointsource.py', 'tractor/galaxy.py', 'tractor/sersic.py', 'tractor/ducks.py', 'tractor/wcs.py', 'tractor/image.py', 'tractor/sky.py', 'tractor/splinesky.py'],
  mech=[('source derivatives', 'getParamDerivatives in pointsource.py, galaxy.py, sersic.py, motion.py'), ('collection', 'tractor/engine.py Tractor.getDerivs')],
  tech='exhaustive enumeration of freeze patterns against central differences of the rendered model', note=NOTE),
 dict(id='P10', title='The log-probability is minus half chi-squared plus the log-prior',
  statement='For every set of images, sources, masked pixels, priors and freeze state, the residual images are (data - model) times the inverse error, the log-likelihood is minus half their sum of squares over all images, '
   'and the log-probability adds the log-prior of the active parameters. Pixels with zero inverse error have no influence whatever they hold. '
   'However pixels, errors, sky, PSF and calibration of an image were given or replaced, they are what is used. '
   'Illegal parameter values and a non-finite prior or model give minus infinity, never NaN, and leave no trace once repaired.',
  over=['inputs', 'histories', 'configurations'],
  quant='all masked-pixel patterns of a small image; all source lists x image counts x prior sets x freeze patterns; all histories of 3 (4) legal/illegal parameter settings; all sequences of 3 (4) replacements of the parts of an image',
  why='Tests evaluate a log-probability at a handful of points and never with masked junk pixels or after illegal values.',
  files=['tractor/engine.py', 'tractor/image.py', 'tractor/utils.py'],
  mech=[('likelihood', 'tractor/engine.py Tractor.getLogLikelihood, getChiImage'), ('posterior', 'tractor/engine.py Tractor.getLogProb')],
  tech='bounded-exhaustive enumeration of scenes, masks and parameter histories against an independent renderer', note=NOTE),
 dict(id='P11', title='Optimisation never lowers the log-probability and reports what it did',
  statement='For every optimiser and whatever the log-probability does along the search direction (rises, falls, stays equal, becomes infinite or NaN), a step ends at the best of the trial points tried '
   '(in increasing step length, until one is non-finite or falls more than 1 below the best so far), or exactly where it started, and the reported gain, update and step length describe that change. '
   'The loop repeats while the gain exceeds its threshold and steps remain. Frozen parameters and data are never touched.',
  over=['environment responses', 'inputs', 'configurations'],
  quant='all answer sequences of length 4 (5) over 7 kinds of answers x 4 optimisers; all gain sequences of length 4 (5); a grid of real scenes x starts x options',
  why='Tests run one fit that converges; the bookkeeping of a line search is only exercised by particular sequences of better and worse trials.',
  files=['tractor/optimize.py', 'tractor/lsqr_optimizer.py', 'tractor/constrained_optimizer.py', 'tractor/engine.py'],
  mech=[('line search', 'tractor/optimize.py Optimizer.tryUpdates, tractor/constrained_optimizer.py ConstrainedOptimizer.tryUpdates'),
        ('loop', 'tractor/lsqr_optimizer.py LsqrOptimizer.optimize_loop, tractor/constrained_optimizer.py ConstrainedOptimizer.optimize_loop')],
  tech='exhaustive enumeration of environment answer sequences on the real optimisers', note=NOTE),
 dict(id='P12', title='Constrained optimisers respect parameter bounds and maximum step sizes',
  statement='Starting inside the bounds, the constrained optimisers never evaluate or accept a parameter value outside its lower and upper bounds, nor a trial step larger than a parameter\'s maximum step, '
   'for any combination of bounds, maximum steps, starting values (including on a bound), search direction and step lengths. '
   'Trial points lie on the search line, shortened only as far as the limits require; no trial follows one cut by a maximum step; the reported limit flags are correct and a fit that ends on a bound says so. '
   'The limits built into the library hold too: ellipse radii are not negative and |e1|, |e2| <= 1 with steps of at most 1 and 0.1 (the softened form has no bounds), pixel positions move at most 1 pixel at a time, Sersic indices stay in [0.29, 6.3] with steps of at most 0.1.',
  over=['inputs', 'configurations'],
  quant='all (start, direction, bounds, maximum step) combinations on a grid for 1 and 2 parameters x 3 step lists x 3 optimisers; every evaluation point monitored; bounded point-source fits; the library\'s own sources in every frozen state',
  why='Tests use at most one bounded parameter; limits interact between parameters and at the bound itself.',
  files=['tractor/constrained_optimizer.py', 'tractor/utils.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py'],
  mech=[('limits', 'tractor/constrained_optimizer.py ConstrainedOptimizer.getParameterSteps'), ('flags', 'tractor/constrained_optimizer.py ConstrainedOptimizer.tryUpdates, optimize_loop')],
  tech='exhaustive enumeration of limit combinations against a reference; monitored evaluation points', note=NOTE),
 dict(id='P13', title='Parameter updates are the least-squares solution of the linearised problem',
  statement='For every scene, freeze state, pattern of masked pixels, set of Gaussian priors, shared parameter and option (column scaling, damping, priors on or off), the update direction of every optimiser solves the '
   'weighted linear least-squares problem formed by the derivatives, residuals and prior terms, one entry per thawed parameter, with equal entries for shared parameters and zero for parameters that do not touch the data. '
   'Masked pixels and image order have no influence, requested column scales, matrices and variances match that system, and no parameter is changed by computing it.',
  over=['inputs', 'configurations'],
  quant='source lists x 1-3 images x all freeze patterns x 3 masked patterns x 3 prior sets x options x 4 optimisers; shared positions/fluxes; all pairs of 6 model masks',
  why='Tests check that fits converge roughly; a wrong row, column or weight only slows a fit down or biases it in particular scenes.',
  files=['tractor/lsqr_optimizer.py', 'tractor/dense_optimizer.py', 'tractor/smarter_dense_optimizer.py', 'tractor/engine.py', 'tractor/utils.py'],
  mech=[('assembly and solution', 'getUpdateDirection in lsqr_optimizer.py, dense_optimizer.py, smarter_dense_optimizer.py')],
  tech='bounded-exhaustive enumeration of scenes and options against a dense float64 solution', note=NOTE),
 dict(id='P14', title='Forced photometry returns the least-squares fluxes and changes nothing else',
  statement='With positions and shapes held fixed, forced photometry sets the fluxes of the thawed sources (and the constant skies, on request) to the weighted linear least-squares solution over all images, '
   'for any set of frozen sources, masked pixels, starting fluxes, regions of interest and memory layouts of the image arrays; with a flux floor no fitted flux lies below it and the fit never gets worse. '
   'Model masks limit each source to its box, a surface-brightness cut-off drops only pixels fainter than it. Returned models, residuals, inverse variances and fit statistics (profile-weighted extra images included) match their definitions at the final fluxes, and all other parameters, images and data are left as they were.',
  over=['inputs', 'configurations'],
  quant='source lists x 1-3 images x all subsets of frozen sources x 3 masked patterns x sky on/off x regions x starts x options',
  why='Tests fit one or two isolated sources; frozen neighbours, masked cores, regions and sky fits take different paths.',
  files=['tractor/optimize.py', 'tractor/lsqr_optimizer.py', 'tractor/engine.py'],
  mech=[('driver, variances, statistics', 'tractor/optimize.py Optimizer.forced_photometry, _get_umodels, _get_fitstats, _get_iv, _getims'), ('fit', 'tractor/lsqr_optimizer.py LsqrOptimizer._lsqr_forced_photom')],
  tech='bounded-exhaustive enumeration of scenes and options against a dense float64 solution', note=NOTE),
 dict(id='P15', title='Gaussian mixtures evaluate, transform and combine exactly',
  statement='Every evaluator of a Gaussian mixture (points, grids, masked grids, cut-off grids, with or without position derivatives) gives the sum of its components at every requested pixel, for any box and offset, '
   'up to its stated cut-off for resolved components sharing a core and to single precision for the masked one (where components too narrow or wide for single precision contribute nothing); masked-out pixels stay zero and trimming to the lit box loses nothing. '
   'Fourier transforms match the closed form, and shifting, shearing, convolving, joining, normalising and copying mixtures in any order gives the mixture the algebra predicts without altering the operands.',
  over=['inputs', 'operation sequences'],
  quant='11 mixtures x 81 boxes x 4 offsets x 4 cut-offs; all 512 3x3 masks; 36 transform sizes; all sequences of up to 3 (4) of 9 operations',
  why='Tests compare a few centred circular profiles; thin, negative, off-box and one-pixel-wide cases take different branches of the C code.',
  files=['tractor/mixture_profiles.py', 'tractor/mix.i', 'tractor/approx3.c', 'tractor/gauss_masked.c', 'tractor/mp_fourier.i'],
  mech=[('evaluators', 'tractor/mixture_profiles.py MixtureOfGaussians.evaluate*, tractor/mix.i, approx3.c, gauss_masked.c'), ('Fourier', 'MixtureOfGaussians.getFourierTransform, tractor/mp_fourier.i'),
        ('algebra', 'MixtureOfGaussians.apply_affine, apply_shear, convolve, extend, __add__, normalize')],
  tech='bounded-exhaustive enumeration of inputs and operation sequences against a float64 reference', note=NOTE),
 dict(id='P16', title='PSF images are right at every sub-pixel position, radius and call history',
  statement='The image of a unit star is the PSF placed at the requested sub-pixel position: for stamps, the (optionally radius-cropped) stamp shifted by the normalised three-lobe Lanczos kernel, identically in the compiled and Python '
   'versions; for oversampled stamps, the interpolated stamp; for Gaussian mixtures, the mixture evaluated inside the radius and clipping region. Normalised PSFs sum to one, with or without a mask. '
   'Fourier transforms are those of the centred, padded or trimmed stamp for every requested size. None of this depends on earlier calls or changes the stamp, and no memory outside the arrays is written.',
  over=['inputs', 'call histories'],
  quant='every impulse of 7 (11) image shapes x 49 shifts; every impulse of 16 (81) shapes x 3 kernels with guards; PSF kinds x shapes x 7 positions x radii x cut-offs x clips; all sequences of 3 (4) transform requests',
  why='Tests look at a few stars; edge rows of the unrolled kernels, half-pixel rounding and cached transforms need specific shapes, positions and orders.',
  files=['tractor/psf.py', 'tractor/mp_fourier.i', 'tractor/mixture_profiles.py'],
  mech=[('shifting', 'tractor/psf.py lanczos_shift_image; tractor/mp_fourier.i correlate7*, lanczos_shift_3f'), ('stars', 'getPointSourcePatch of PixelizedPSF, NormalizedPsf, GaussianMixturePSF, NCircularGaussianPSF'),
        ('transforms', 'PixelizedPSF.getFourierTransform, _padInImage')],
  tech='bounded-exhaustive enumeration (operator basis, positions, call sequences) against a float64 reference', note=NOTE),
 dict(id='P18', title='An ellipse stays the same ellipse in every parameterisation and conversion',
  statement='EllipseE, EllipseESoft and GalaxyShape built from the same radius, axis ratio and angle describe the same ellipse: the same covariance (the major axis of length r along (-sin phi, cos phi) in RA, Dec), the same properties '
   '(re, e, ab, theta, softe), the same pixel tensor, and the same rendered galaxy. Every chain of conversions between them, their covariance matrix and (r, b/a, phi) preserves the ellipse, circles included, and leaves its argument alone. '
   'Every softened parameter vector is a legal, finite ellipse; EllipseE is legal exactly when e < 1 and re >= 0; a derivative step from a legal EllipseE stays legal; axis ratios are never drawn thinner than 1/1000.',
  over=['inputs', 'conversion histories'],
  quant='3 (6) radii x 5 (9) axis ratios x 41 (113) angles; all chains of 3 (4) of 11 conversions from 36 (54) ellipses; variance-correlation grid; softened and plain parameter grids incl. illegal ones; 6 galaxy kinds x 2 WCS x PSFs',
  why='Tests sample a handful of ellipses; sign, quadrant and degenerate (circular, extreme) errors show only for particular angles or chains.',
  files=['tractor/ellipses.py', 'tractor/galaxy.py'],
  mech=[('parameterisations', 'tractor/ellipses.py EllipseE, EllipseESoft; tractor/galaxy.py GalaxyShape')],
  tech='bounded-exhaustive enumeration of conversion chains against a reference covariance', note=NOTE),
 dict(id='P17', title='Caching never changes a rendering',
  statement='A Tractor with TractorCacheMixin renders, after every history of edits, exactly what a plain Tractor renders from the same objects: edits of source parameters, classes and band labels, freezing, replaced or edited PSFs, WCSs and '
   'photometric calibrations (scale, band, wrappers), image shape and time, epoch and motion of moving sources, model masks set, changed or lifted, rendering options, thresholds (a rendering made with a lower threshold may be reused, agreeing to the threshold per pixel), '
   'clearCache, disable_cache and caches of any size, whatever values the parameters take (-1 and -2 included). The Cache is a least-recently-used map: it never holds more than maxsize entries, evicts only the least recently used one, replaces without evicting, '
   'returns exactly what was last put under an equal key, and counts hits, misses and sizes; NullCache never holds anything.',
  over=['operation histories', 'inputs'],
  quant='all 4 (5) operation sequences out of 13 over 3 keys and all 5 (7) sequences of puts and gets over 4 keys, maximum sizes 1-4; all pairs of 97 edits of a flat scene and 42 edits of a sky scene with their returns (a,b,a,b), (all triples of the core edits); rendering-option pairs; small and null caches',
  why='A stale image needs a particular edit after a particular rendering: the key must cover everything a rendering depends on; no test uses the cache at all.',
  files=['tractor/cache.py', 'tractor/image.py', 'tractor/psf.py', 'tractor/wcs.py', 'tractor/brightness.py', 'tractor/utils.py', 'tractor/motion.py', 'tractor/shifted.py', 'tractor/psfex.py'],
  mech=[('cache key and reuse', 'tractor/cache.py TractorCacheMixin.getModelPatch'), ('LRU', 'tractor/cache.py Cache'), ('keys', 'hashkey methods of every class')],
  tech='bounded-exhaustive enumeration of edit histories: cached against uncached rendering; all operation sequences of the LRU against a model', note=NOTE),
 dict(id='P19', title='World coordinates are one consistent mapping',
  statement='TanWcs, ConstantFitsWcs and WcslibWcs agree with the gnomonic projection of their header at every position and pixel, RA wrap-around and high declination included (zero-indexed pixels); pixelToPosition inverts positionToPixel; '
   'cdAtPixel is the local derivative of the mapping and cdInverseAtPixel its inverse; pixel_scale is the geometric mean scale. NullWCS offsets and scales exactly. Every history of shifts, offsets (setX0Y0), copies, freezing and parameter edits '
   'moves pixel coordinates by the accumulated amount, changes the header parameters it names and nothing else, and leaves copies and originals independent; the ShiftedWcs and WcsWrapper views agree with the WCS they wrap. RaDecPos distances are '
   'great-circle distances and position arithmetic acts componentwise.',
  over=['inputs', 'operation histories'],
  quant='30 (108) fields x 3 WCS classes x pixel grid; wrapper offsets; NullWCS parameters x shift chains; all sequences of <=3 (4) edits, shifts, copies and freezes of a TanWcs; all lists of <=3 shifts per class; all pairs of 7 sky positions',
  why='Off-by-one, wrap-around and sign errors show only for particular fields and shift histories; the tests use one field.',
  files=['tractor/wcs.py', 'tractor/shifted.py', 'tractor/basics.py'],
  mech=[('projection and offsets', 'tractor/wcs.py'), ('views', 'tractor/shifted.py ShiftedWcs')],
  tech='bounded-exhaustive enumeration of fields, pixels and edit histories against a float64 gnomonic reference', note=NOTE),
 dict(id='P20', title='Counts, magnitudes and fluxes describe the same brightness',
  statement='LinearPhotoCal, MagsPhotoCal, FluxesPhotoCal and ScaledPhotoCal turn a brightness into counts by the documented formula in the named band, whatever the order of the bands; a source described in magnitudes or in nanomaggies has the same counts, '
   'and is rendered the same. Magnitudes and nanomaggies, zeropoints and scales convert back and forth without loss; flux errors become magnitude errors (NaN magnitudes for non-positive fluxes) for arrays and scalars without changing the inputs. '
   'Every history of edits, arithmetic, copies, freezing and pickling of Mags, Fluxes and NanoMaggies acts on the named band only, adds fluxes as fluxes and magnitudes as fluxes, and keeps the order of the bands; so do edits of zeropoint and scale.',
  over=['inputs', 'operation histories'],
  quant='scales x fluxes x orders x classes; zeropoints x magnitudes incl. limits, inf and NaN; all lists of <=3 (4) flux-error pairs; all sequences of <=3 (4) operations on 3 brightness classes in 2 orders; all sequences of <=4 (5) calibration edits',
  why='Band order and aliasing errors show only for particular orders and histories.',
  files=['tractor/brightness.py', 'tractor/shifted.py'],
  mech=[('brightness and calibration', 'tractor/brightness.py')],
  tech='bounded-exhaustive enumeration of brightness values and edit histories against the photometric formulas', note=NOTE),
 dict(id='P21', title='Sky models evaluate, shift, scale and fit as one function of position',
  statement='ConstantSky, NullSky and SplineSky add their value to a picture (not replace it); after every history of scaling, offsetting, subtracting, shifting to a subimage, copying, freezing and parameter edits they evaluate to the correspondingly transformed original, '
   'copies stay independent and keep the smoothness prior. A spline sky passes through its control values, is linear in them, and the derivatives handed to the optimisers are exact. A spline estimated from a picture interpolates the medians of the unmasked pixels of '
   'each box (mask or no mask, minimum fraction honoured, input unchanged), with boxes that cover the picture and are centred on it. The smoothness prior of spline control points compares each with its neighbours along both axes (square grid or not), its log-prior is consistent with its linearised rows in every frozen state, '
   'and fits with the sparse and the dense optimiser reach the exact least-squares solution with and without it.',
  over=['inputs', 'operation histories', 'frozen states'],
  quant='all sequences of <=3 (4) operations on 4 (7) kinds of sky; grid sizes 2-5 (7) squared x orders 1-3; picture shapes x box sizes x 7 masks x minimum fractions; all 16 masks of 4 pixels; fits: 3 kinds x 2 optimisers x prior widths x frozen patterns x sources',
  why='Axis-order errors are invisible on square grids; shifts and scalings compose only over histories; the tests fit one spline.',
  files=['tractor/sky.py', 'tractor/splinesky.py', 'tractor/lsqr_optimizer.py', 'tractor/dense_optimizer.py'],
  mech=[('spline, estimation, prior', 'tractor/splinesky.py SplineSky'), ('constant', 'tractor/sky.py')],
  tech='bounded-exhaustive enumeration of operation histories and fits against closed-form references', note=NOTE),
 dict(id='P22', title='What is saved is what is read back',
  statement='Pickling and restoring any parameter object, source, PSF, sky, calibration, image or whole Tractor (any protocol, any frozen state) gives an object with the same values, names, frozen flags, priors and behaviour, independent of the original, that stays '
   'equivalent under every later edit; a whole scene restores at every point of a history of edits with its model masks, options and optimiser, renders the same, has the same log-probability and fits to the same result. Image.toFits / fromFits-style headers of GaussianMixturePSF, NullWCS, '
   'the skies and the photometric calibrations restore all parameters, frozen ones included, for any prefix; SplineSky tables restore the sky, its position and its shift, row by row; standard WCS headers describe the same mapping, offsets included.',
  over=['inputs', 'operation histories', 'crash points between save and restore'],
  quant='all zoo object kinds x frozen patterns x pickle protocols x edits after restoring; all sequences of <=2 (3) scene edits, saved before and after the last; PSF kinds x WCS; calibration classes x frozen patterns; 60 FITS image combinations x prefixes; sky tables x shifts x rows; WCS headers x offsets',
  why='State left out of a save shows only for objects in the particular state; the tests save nothing but one PSF.',
  files=['tractor/engine.py', 'tractor/image.py', 'tractor/utils.py', 'tractor/psf.py', 'tractor/splinesky.py', 'tractor/brightness.py', 'tractor/wcs.py', 'tractor/sky.py'],
  mech=[('pickling', '__getstate__/__setstate__ of Tractor, Image, PSFs, WCSs'), ('FITS', 'toFitsHeader/fromFitsHeader, SplineSky.write_fits/from_fits')],
  tech='bounded-exhaustive enumeration of objects, states and edit histories with save/restore at each point, against the live object', note=NOTE),
 dict(id='P23', title='The vectorised (GPU) optimiser computes what the CPU code computes',
  statement='GpuOptimizer, run with numpy as its array library on a Tractor with frozen images and one source (PointSource, Gaussian, Exp, Dev or Sersic galaxy, or none) with or without a ConstantSurfaceBrightness, images in any mixture of bands, '
   'rotations, pixel scales, photometric scales, hybrid PSFs and rectangular model masks, any declination, frozen parameters (position, brightness, single bands, shape, one shape parameter, Sersic index, surface brightness, the whole source) and Gaussian priors: '
   'its model patches equal the CPU rendering on the model mask; its update direction solves the least-squares problem of the CPU derivatives and priors (zero for parameters nothing constrains); asking changes no parameter; '
   'its line search moves along the given direction within the step and parameter limits, reports the true improvement of the log-probability, finds the best of the prescribed steps and never makes things worse. Keeping prepared images '
   '(cache_image_params), dropping them, moving the source inside or beyond their margin, editing it and pickling the optimiser change none of this.',
  over=['inputs', 'frozen states', 'operation histories'],
  quant='6 source kinds x surface brightness x 13 image lists x (3 declinations and positions, 11 frozen states, 5 priors, prepared images or not), thorough: their full product; all sequences of <=2 (3) of 9 operations for 3 scenes; models, update and line search at each',
  why='The array code re-implements rendering, derivatives, priors and line search by hand with its own parameter layout; nothing in the test suite runs it.',
  files=['tractor/gpu_optimizer.py', 'tractor/constrained_optimizer.py', 'tractor/galaxy.py'],
  mech=[('update', 'tractor/gpu_optimizer.py gpu_one_source_update'), ('line search', 'gpu_one_source_try_updates'), ('rendering', 'gpu_get_unitflux_psf, gpu_get_unitflux_galaxy_profiles, gpu_one_source_models')],
  tech='bounded-exhaustive enumeration of scenes, frozen states and operation histories: vectorised against CPU computation', note=NOTE),
 dict(id='P24', title='The Ceres optimiser finds the optimum the model defines',
  statement='Forced photometry with CeresOptimizer gives the least-squares fluxes (and sky levels, when fitted) of all thawed sources over all images, regions of interest and unmasked pixels, whatever its block size, number of threads, starting fluxes and the memory layout of the image arrays, with correct '
   'inverse variances, fit statistics and model images; with nonneg=True every flux is non-negative and the fit is as good as the non-negative least-squares one. A general fit (optimize, optimize_loop) over any number of images, thawed skies included, '
   'reports the true gain of the objective it was given (Gaussian priors when asked for), ends at an optimum of it with any of the options scaled, dynamic_scale, scale_columns, numeric, stays inside parameter bounds when asked to, gives the parameter variances of the '
   'linearised problem, and leaves frozen parameters and image data alone; this holds again after every history of fits, edits, freezing and thawing, and with nothing to fit.',
  over=['inputs', 'frozen states', 'operation histories'],
  quant='4 (6) source lists x 1-3 images x 4 block sizes x threads x masks x frozen sources x sky x regions; sign patterns of the true fluxes x starts for non-negative fits; 16 (24) scenes x 6 options x 4 priors x 5 bounds x 5 frozen states (one at a time; thorough: all pairs and triples); all sequences of <=3 (4) of 9 operations',
  why='The C++ cost functions dice images into blocks and map parameters by hand; the tests fit one image with default options.',
  files=['tractor/ceres_optimizer.py', 'tractor/ceres.i', 'tractor/ceres-tractor.cc', 'tractor/optimize.py'],
  mech=[('forced photometry', 'tractor/ceres_optimizer.py _ceres_forced_photom, ceres-tractor.cc ForcedPhotCostFunction'), ('general fit', '_ceres_opt, ceres.i ceres_opt, ImageCostFunction')],
  tech='bounded-exhaustive enumeration of scenes, options and histories against dense float64 solutions and optimality conditions', note=NOTE),
 dict(id='P25', title='PsfEx models stay the same function of position when loaded, moved or saved',
  statement='A PsfEx model read from any extension of a file, with constant, X_IMAGE/Y_IMAGE or XWIN/YWIN dependence, or from any row of a merged table, is at every position the sum of its basis images weighted by the polynomial terms in PSFEx order '
   'of the offset and scaled position; its star images, constant PSFs and Fourier transforms at a position are those of that image, for native and oversampled and for normalised variants, so that point sources and galaxies see the local PSF. '
   'Copying, shifting in place or not, writing and re-reading, pickling and using it, in any order, keep that function (moved by the shifts), its sampling and its FWHM, and leave the operands alone. '
   'A spatially varying Gaussian mixture is the cubic spline through the fits at its grid points, fits each grid point once, is restored from FITS (either layout, either mixture class) as it was saved, and its caching version gives the model at the centre of the rounding cell of the requested position.',
  over=['inputs', 'operation histories'],
  quant='degree 0-3 (4) x 2 (3) samplings x axis names x extensions and merged rows; all sequences of <=2-3 (3-4) of 9 operations for 6 PSFs; 72 renderings; 18 stamp fits, 12 PsfEx fits and 180 save/restore combinations; all sequences of 2 (3) of 9 positions and pickling x 18 caches',
  why='The tests never load a PsfEx file and evaluate one model at one position; term order, row and offset bookkeeping are only visible for particular degrees, shifts and histories.',
  files=['tractor/psfex.py', 'tractor/psf.py'],
  mech=[('polynomial and I/O', 'tractor/psfex.py PsfExModel'), ('PSF', 'PixelizedPsfEx, NormalizedPixelizedPsfEx'), ('varying mixtures', 'VaryingGaussianPSF, VaryingGaussianPsfEx toFits/fromFits, CachingPsfEx')],
  tech='bounded-exhaustive enumeration of models and operation histories of the real code against a polynomial/spline reference model', note=NOTE),
 dict(id='P26', title='Moving sources are where their motion and parallax put them, at every time',
  statement='At any time a moving point source stands at its position plus elapsed years times its proper motion, displaced by its parallax along the ecliptic direction given by the Sun angle (circular orbit, obliquity as in the code), for any sign of motion, parallax and elapsed time; '
   'in each image it is rendered exactly like a fixed point source at the place it has at the time of that image, whatever the surface-brightness cut-off. A parallax with the Lutz-Kelker prior has log-prior -4 ln(parallax), is legal only from zero up and impossible below. Its derivatives are one per thawed parameter and equal the true derivatives in every freeze state and for every kind of brightness (fluxes or magnitudes), with or without masks, whether or not the mask sees the source. '
   'Changing epoch, time or parameters, copying and pickling in any order keep this. Noise-free images at several times, fitted from a displaced start, give back position, flux, motion and parallax. '
   'Times convert between TAI, MJD, years and Sun angle consistently, and sums, differences, products and quotients of positions, motions, parallaxes and times with numbers and with each other are elementwise and leave their operands alone.',
  over=['inputs', 'operation histories'],
  quant='grids of positions x motions x parallaxes x epochs x times; images x freeze subsets x masks; all sequences of edits; all operand pairs x operators; multi-epoch fits (3456 cases quick, 36128 thorough)',
  why='No test uses moving sources; sign and unit errors in one term show only at particular times of year, directions or epochs.',
  files=['tractor/motion.py', 'tractor/tractortime.py', 'tractor/utils.py'],
  mech=[('position', 'MovingPointSource.getPositionAtTime'), ('derivatives', 'MovingPointSource.getParamDerivatives'), ('time', 'TAITime'), ('arithmetic', 'ArithmeticParams')],
  tech='bounded-exhaustive enumeration of motions, times, freeze states and edit histories of the real code against an independent astrometric model', note=NOTE),
 dict(id='P27', title='Sersic galaxies follow the Sersic law at every index',
  statement='For every Sersic index in the supported range (.29 to 6.3; outside, the nearest end), the profile has unit flux, half its light within the effective radius, follows the Sersic law between .1 and 1.5 effective radii, and changes continuously with the index; the result does not depend on which indices were asked for before or on what was done with the answers. '
   'Indices .5, 1 and 4 render like Gaussian, exponential and de Vaucouleurs galaxies. The derivative with respect to the index is the true one throughout the range, at its ends and in every freeze state; fits keep the index in its range and recover the index of noise-free images. The exponential and de Vaucouleurs profile functions equal their definitions with the SDSS outer cut-offs.',
  over=['inputs', 'request histories'],
  quant='every index from .29 to 6.3 in steps of .0025 (.0005) and around each joint; all sequences of <=2 (3) requests of 7 indices; rendering and fit grids',
  why='The profile is a table of fits joined at ten places: a wrong entry or joint only shows at particular indices, and the tests render one.',
  files=['tractor/sersic.py', 'tractor/galaxy_profiles.py', 'tractor/mixture_profiles.py', 'tractor/galaxy.py'],
  mech=[('profiles', 'tractor/sersic.py SersicMixture'), ('galaxy', 'SersicGalaxy, SersicIndex'), ('fixed profiles', 'tractor/galaxy_profiles.py, mixture_profiles.py get_exp_mixture/get_dev_mixture')],
  tech='exhaustive sweep of the index range and of request histories of the real code against the Sersic law', note=NOTE),
 dict(id='P28', title='Fitting a Gaussian mixture is expectation maximisation and recovers mixtures',
  statement='Each step of the mixture fits to a pixel stamp (with or without a uniform background) and to one-dimensional samples is exactly the expectation-maximisation step with the stated variance regularisation, for any non-degenerate stamp, number of components, start, origin and array layout; results land in the arrays passed and nothing else is changed, many steps at once are the same as one by one, '
   'without regularisation the likelihood never falls and the weights add up to the stamp. A stamp that is a Gaussian mixture is fitted by that mixture by every fitting method (default, given origin, background, direct, ellipse parameters) and from tuple or list starts, leaving stamp and start alone; the Gaussian part of a hybrid PSF is that fit.',
  over=['inputs', 'iteration histories'],
  quant='all 511 lit/unlit 3x3 stamps (thorough: and 4095 3x4) x components x starts x regularisation; larger stamps x steps x 4 array layouts x origins; all multisets of <=4 (5) sample values; 25-step runs; fits of 5 mixtures x 5 methods x 3 starts',
  why='The fits are compiled code without any test that asserts on results; errors in one moment, cut-off or write-back path only show for particular shapes, starts or layouts.',
  files=['tractor/emfit.i', 'tractor/emfit2.c', 'tractor/fitpsf.py', 'tractor/psf.py'],
  mech=[('EM', 'tractor/emfit.i em_fit_2d_reg, em_fit_1d_samples_reg; emfit2.c em_fit_2d_reg2'), ('Python', 'tractor/fitpsf.py'), ('PSF', 'GaussianMixturePSF.fromStamp, GaussianMixtureEllipsePSF.fromStamp, HybridPixelizedPSF')],
  tech='bounded-exhaustive enumeration of stamps, starts and iteration counts of the compiled code against a float64 reference step', note=NOTE),
 dict(id='P29', title='Regions of interest and box sums are exact for every rectangle',
  statement='The integral image gives, for every rectangle (also touching the edges, one at a time or many at once), the sum of the pixels in it; for a mirror-symmetric image the first quadrant suffices, for sums and for elements. '
   'A region asked for by pixel bounds is that region; around a sky position it is all pixels within the half-size of the rounded pixel position, clipped to the image; around a sky box it spans the rounded pixels of its four corners, clipped; a region that misses the image is reported as none, and it is reported whether the region is a proper part of the image.',
  over=['inputs'],
  quant='every rectangle of every image size up to 5x5 (7x7) and symmetric sizes up to 7 (9); 3 WCS x 3 image sizes x centres and boxes over and beyond the image x half-sizes',
  why='Off-by-one errors at edges and midlines appear only for particular rectangles.',
  files=['tractor/integral_image.py', 'tractor/symmetric_integral_image.py', 'tractor/imageutils.py'],
  mech=[('sums', 'intimg_rect, symm_intimg_rect, symm_intimg_ref'), ('regions', 'interpret_roi')],
  tech='exhaustive enumeration of rectangles and regions of the real code against explicit sums', note=NOTE),
 dict(id='P30', title='Survey catalogues become the sources their rows describe',
  statement='For every SDSS photoObj table (DR8 and DR9 readers) and every combination of the options, the sources made are exactly the rows that pass the asked-for cuts, in order (by radius: in any order): a star (point source) where the type or the PSF probability says so, otherwise the exponential, de Vaucouleurs or composite galaxy its fraction says, '
   'at the position of the row, with the fluxes (or magnitudes) of the asked-for bands of the right model and the radius, axis ratio and angle of the row, the angle in the sense of the galaxy shapes here, sizes raised to 1/30 arcsec at least; the lists of rows and indices returned alongside agree with the sources, and an empty table or selection gives no sources. '
   'The CAS form of the same objects gives the same sources. SourceExtractor model-fit tables give, row by row, the point source, disk, spheroid or composite their columns describe, and nothing for rows fainter than the limit.',
  over=['inputs', 'configurations'],
  quant='a table with the product of object kinds x all combinations of up to 3 (4) options; all tables of up to 2 (3) rows from 7 kinds x 7 selections x all return values; CAS x bands; all SourceExtractor row kinds x limits',
  why='There is no test of the catalogue readers; options interact and each row kind takes its own path.',
  files=['tractor/sdss.py', 'tractor/source_extractor.py'],
  mech=[('SDSS', 'tractor/sdss.py _get_sources'), ('CAS', 'get_tractor_sources_cas_dr9'), ('SourceExtractor', 'tractor/source_extractor.py get_se_modelfit_cat')],
  tech='bounded-exhaustive enumeration of tables and option sets of the real readers against a row-by-row oracle', note=NOTE),
 dict(id='P31', title='SDSS frames become images with the right pixels, weights, PSF and WCS',
  statement='For every region (pixels, sky size or sky box, inside, across and outside the frame), band, PSF choice and option, the image made from an SDSS frame has the pixels of the region, the inverse variance of the calibrated noise model with masked pixels at zero, the time, calibration, sky sigma and header details of the frame, '
   'the PSF of the region (mixture, double Gaussian or pixelized, plain or bright), and a WCS by which every pixel has the position the asTrans transformation gives it; a region outside the frame gives no image. A passing failure at any access to the survey is repaired by fetching the files again, a lasting one is reported. '
   'SdssWcs inverts itself, its CD matrices, pixel scale, copies, shifts and parameters follow the transformation. Bright stars are rendered with the power-law profile in the proportion their counts and thresholds say. Binned images have weighted mean pixels, summed weights and matching WCS, calibration and PSF.',
  over=['inputs', 'configurations', 'faults'],
  quant='all combinations of up to 2 (3) options x 7 regions x masks x 4 transformations; sky regions on a grid; a failure at each access, passing or lasting; WCS parameters x freeze states; star counts around thresholds; bin sizes x shapes x weights (3044 cases quick, 7376 thorough)',
  why='There is no test of the SDSS reader: it is used on whole surveys where a half-pixel shift, a wrong band index or a missed mask goes unseen.',
  files=['tractor/sdss.py', 'tractor/imageutils.py', 'tractor/image.py'],
  mech=[('images', 'tractor/sdss.py _get_tractor_image_dr8'), ('WCS', 'SdssWcs'), ('bright stars', 'SdssPointSource, SdssBrightPSF'), ('binning', 'scale_sdss_image')],
  tech='bounded-exhaustive enumeration of options, regions and fault points of the real reader over synthetic survey objects', note=NOTE),
 dict(id='P32', title='Dust extinction and CFHT calibration follow the maps and headers',
  statement='At every position of the sky the reddening is the bilinear interpolation of the map of its Galactic hemisphere at the place the SFD projection gives, gaps (zeros) not counting and nothing from across the edge of the map entering; it depends neither on which other positions are asked for nor on how the map files were named; the extinction in each filter is the published coefficient times the reddening, in the order of the filters. Missing map files and unknown filters are reported. '
   'CFHT .head files of any number of headers are read card by card, and the CFHT calibrations give the counts of the photometric formula in the header for any band and magnitude, in nanomaggies and in magnitudes; copies are independent and parameter changes take effect.',
  over=['inputs', 'configurations'],
  quant='all maps of 1x1 to 3x3 pixels over 2-4 values x all quarter-pixel positions; a 5 (2.5) degree grid of the sky plus the map edges, plane and poles x maps x ways to name the files; header files of up to 2 (3) headers; exposure x zeropoint x airmass grids',
  why='There is no test; errors at map edges and gaps affect single positions.',
  files=['tractor/sfd.py', 'tractor/cfht.py'],
  mech=[('interpolation', 'SFDMap.bilinear_interp_nonzero'), ('reddening', 'SFDMap.ebv'), ('CFHT', 'tractor/cfht.py')],
  tech='bounded-exhaustive enumeration of small maps, positions and header files of the real code against an independent oracle', note=NOTE),
 dict(id='P33', title='WISE forced photometry measures each source in its nearest tile',
  statement='For every target field, the unWISE tiles (square, centred, axis-aligned projections) given are exactly those whose outline touches it (by radius: all of those, and only tiles near it). A tile is read from the first of the given directories that has all its files, compressed or not, in any band and region, with its pixels, weights (zero without exposures, a quarter in band 4), exposure counts, WCS, PSF, dates and header; a region outside gives nothing and missing files an error. '
   'Forced photometry on any set of overlapping tiles, in any order, gives one row per source: flux, inverse variance, magnitude and error, exposures, date and tile from the tile whose centre is nearest (by the larger of the two pixel offsets), whatever the neighbours (sources in the margins are modelled but not kept); sources outside every tile have zero flux and weight; models and statistics match; broadened and pixelized PSFs are used when asked for; both solvers agree. '
   'The command-line program gives the same for catalogues of all types and its selections. The WISE and AllWISE catalogue readers return exactly the rows inside the box or field, at any declination including the poles.',
  over=['inputs', 'configurations', 'orders', 'missing files'],
  quant='120 (720) fields over the sky x every atlas tile; bands x regions x compression; up to 3 directories x every set of missing files; 10 source layouts x tile sets in every order x bands x options; boxes around 9 part limits; program runs (960 cases quick, 2431 thorough)',
  why='There is no test of the wise package; wrong tile assignment or file fallback shows only in overlaps and partial directories.',
  files=['wise/unwise.py', 'wise/forcedphot.py', 'wise/wisecat.py', 'wise/allwisecat.py'],
  mech=[('tiles', 'unwise_tiles_touching_wcs'), ('coadds', 'get_unwise_tractor_image'), ('photometry', 'unwise_forcedphot'), ('catalogues', '_read_wise_cats')],
  tech='bounded-exhaustive enumeration of fields, file states, tile orders and layouts of the real code over synthetic coadds', note=NOTE),
]
