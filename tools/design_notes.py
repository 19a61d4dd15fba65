"""Per-property design notes; DESIGN.md is generated from this by tools/gen_design.py."""
HEAD = '''# Design

## The system and what is claimed about it

The Tractor fits parametric models of astronomical images: objects with nested, individually frozen parameters
(`utils.py`), images with calibrations (`image.py`, `psf.py`, `wcs.py`, `brightness.py`, `sky.py`), sources
(`pointsource.py`, `galaxy.py`, ...), an engine that renders models and probabilities (`engine.py`) and optimisers.
Users rely on (1) the parameter vector meaning the same thing to everybody in every freeze state, (2) model images and
their derivatives being right for every combination of source, PSF, WCS, mask and calibration, whatever was done before,
(3) the optimisers never making things worse and respecting bounds, and (4) the numerical kernels (Gaussian mixtures,
PSF resampling, Fourier transforms) being right everywhere. These are what the properties state.

## Technique: bounded-exhaustive model checking of the real code

Every property is decided by explicit-state exploration of the *implementation in /repo*, not of a transcription of it:
a driver (`mc/pNN.py`) enumerates **all** operation histories / configurations / environment answers / freeze states /
masks up to a stated bound, executes each against the real classes, and after every step compares every observable
with a small independent reference model (a list of numbers and flags for the parameter tree, a dense numpy renderer
for images, a dense least-squares solve for the optimisers, a table of trial points for line searches, ...). Nothing is
sampled; textures that fill images are fixed patterns, and VERIF_SEED is recorded but changes nothing. The model side is bound to the code by construction: every model trace *is* a
replayed implementation trace (`traces_validated_against_impl` = number of cases).

* The deciding step is the enumeration: a check exits 1 as soon as one explored execution disagrees with the model (or
  raises, crashes or hangs: each shard of cases runs in a forked worker whose death or >240 s silence is reported as a
  violation of the case it was executing).
* Where the environment is what varies (log-probability answers in P11/P12, callback answers, worker results), the
  environment is replaced by a table and all of its answer sequences are enumerated.
* The numerical properties quantify over reals. There the explored space is a finite grid of inputs crossed exhaustively
  with the discrete structure (kinds, masks, freeze states, call orders); what is outside the grid is not claimed beyond
  it. This is the honest limit of this family here; the discrete structure is where the bugs tests cannot reach live.
* Every check rebuilds the C extensions from /repo's working tree first (`./check` calls the build into a scratch
  copy/in-place as `build.sh` does) and imports the package from there.
* Evidence (`evidence/<id>.json`) records per section: bound, cases, distinct states, transitions, distinct outcomes.
* Checks look only at observable behaviour through the public API, so refactorings leave them quiet.

Bounds come in two tiers; `thorough` uses longer histories / more kinds / finer grids.

No hooks are needed in /repo (environment answers are injected by subclassing from /verif). All commits in /repo are
`fix:` commits for genuine defects found by the checks; they are listed in `known_findings.json` and below.
'''

NOTES = dict(
P01='''Enumerated: every freeze/thaw/set/replace history to depth 3-4 on parameter trees of every container kind, plus
every parameterised class of the package (the "zoo", ~50 objects) in all subsets of frozen flags (up to 2^8, else
all-but-few). Observed after every step: vector length, names, values, all-vector, step sizes, bounds, max steps,
setParam/setParams return values, thawed indices. Oracle: list of (value, flag) pairs.
False alarms corrected: unnamed parameters are named by thawed position (documented in code); the *sign* of step sizes is not claimed.''',
P02='''Enumerated: all histories (depth 4, 5 thorough) of addSource/removeSource/freeze/thaw/setCatalog/setImages on a Tractor with
up to 3 sources and 2 images, including shared and repeated objects. Oracle: a list model with identity semantics and flags per slot.''',
P03='''Enumerated: every zoo object x freeze subset x (copy, then edit one side through every mutator): values, flags, behaviour
(rendered patch, counts, positions) equal right after copying, and neither side sees later edits of the other. Wrapped and shifted calibrations, and radii set on PSFs and sources, are part of the zoo.''',
P04='''Enumerated: all freeze states of six trees x all subsets of prior terms; legal/illegal grids of shapes and indices. Oracle: direct sum.''',
P05='''Enumerated: all pairs of small patches (offsets, sizes incl. empty and None) x all operations (+, -, *, /, in-place, clip, trim, slices,
performArithmetic, addTo, getSlice, overlap tests); histories of in-place operations. Oracle: dict pixel->value. Double-precision patches stay double through every operation.''',
P06='''Enumerated: all ordered lists of up to 2 (3) sources over 7 kinds x positions x images; all histories of 3 (4) operations over 16
operations; interference: the probe images of every kind after rendering/differentiating/masking every kind at 8 sizes per PSF kind
(fresh process, baseline taken first); observers: 10 observers (all pairs) x source kinds x PSF kinds x brightness kinds x freeze pattern.
Oracle: independent renderer (sum of Gaussians from the published mixture tables), bitwise for "nothing changed". "extended": large galaxies of every kind over the whole image under every PSF class.''',
P07='''Enumerated: source kind x PSF kind x (all rectangles over a grid of edges; all 2^9 boolean patterns of a block; elongated masks around a
large galaxy) and all sequences of 3 (4) setModelMasks settings. Oracle: the rendering over a huge mask; for the Tractor level the reference renderer.
Tolerances for galaxies under pixelised PSFs reflect the wrap-around of the discrete transform (physics of the algorithm, not slack). "near masks": masks that touch the source only with their edge; stamps of unequal sides.''',
P08='''Enumerated: WCS kinds x PSF kinds x sky kinds x calibrations x sub-rectangles (and sub-sub-rectangles); shifted/scaled wrappers around every
WCS kind and one with a position-dependent matrix, lists of shifts, derivatives through the wrappers. Oracle: slices of the parent. Thresholds (modelMinval) of sub-images and scaled photometric calibrations are included.''',
P09='''Enumerated: source kinds x PSF kinds x image calibrations x all freeze patterns of members (and band by band) x masks. Oracle: central finite
differences of the reference renderer (or of the model image through setParam where no closed form exists), per parameter, in vector order. Explicit step sizes, negative image scales and magnitudes are crossed with the kinds.''',
P10='''Enumerated: all 2^9 (2^12) patterns of masked pixels x junk; image lists x source lists x prior subsets x freeze states; all histories of 3 (4)
legal/illegal/non-finite settings; fluxes of unseen bands x non-finite values x priors x freezing; all sequences of 3 (4) replacements of image parts.
False alarm corrected: a NaN/inf *flux* makes a point source be skipped (deliberate upstream), so only "never NaN" is claimed there.''',
P11='''Environment model: the log-probability along the search direction is a table; all answer sequences (7 answers^4, 11^3; thorough 7^5, 11^4)
for each optimiser's line search, all callback answers, all gain sequences for the loop; then real scenes from a grid of starts.
False alarm corrected: the softened-radius runaway start is excluded (unbounded parameter overflows).''',
P12='''All (start, bound, direction, max-step) tuples for 1 and 2 parameters x step lists against a closed-form trial list; monitored evaluations;
scripted direction pairs through the loop for the limit flags; rounding cases at the bounds; real fits against bounds. Section F does the same for the limits that are built into the library (ellipses, galaxy shapes, pixel positions, Sersic indices) in every frozen state.''',
P13='''Optimisers x source lists x images x freeze patterns x masked pixels x priors x shared parameters x options; all pairs of model masks; all
image lists over two bands x sets of thawed fluxes, with residual images passed in. Oracle: dense float64 lstsq.''',
P14='''Forced photometry: sources x images x frozen sets x masks x rois x sky x floors: fluxes, variances, fit statistics, reported images against
dense linear algebra. Not claimed: sky+rois together, priors in forced photometry (upstream does not support them).''',
P15='''Mixtures x boxes x offsets x evaluators x cut-offs, all 3x3 masks, Fourier sizes; all histories of 3 (4) over 14 algebraic operations.''',
P16='''Stamps x sub-pixel positions x radii x masks x C/Python resamplers; all sequences of Fourier requests; mixtures; redzones around every C buffer.
False alarm corrected: oversampled edge taps are compared only inside the stamp.''',
P18='''Ellipse grids in all constructions; all chains of conversions up to depth 3 (4) as a reachable-state exploration from each ellipse; covariance,
softened and plain parameter grids incl. illegal values; equivalent shapes rendered through every galaxy kind x WCS x PSF. Oracle: r^2(uu^T + (b/a)^2 vv^T). Derivative steps are taken from every legal ellipse of the grid, including those on the edge of legality. Found and repaired: the fixed step of EllipseE left the legal ellipses near |e| = 1.''',
P17='''All Cache operation sequences to depth 4 (5), and puts/gets to depth 5 (7), against an LRU model; all pairs of edits of two scenes (each followed by
rendering everything through a cached and an uncached Tractor over the same objects), returns a-b-a-b between edits of the same thing, cache sizes 3 and 0. Thorough: all triples of core edits.
Oracle: the uncached rendering. Magnitude calibrations (band, zero point) and WCSs that share the underlying object but not the offset are among the edits.''',
P19='''Fields (RA wrap, poles, rotations, parity, shear) x classes x pixels, against a float64 gnomonic projection; all sequences of edits, shifts, copies, freezes of a TanWcs
to depth 3 (4) tracked by a header model; all shift lists per class. Offsets as parameters, fractional shifts, duck-typed WCS objects returning pairs, and copies at every point of a shift list.''',
P20='''All value grids and all operation sequences to depth 3 (4) on the brightness classes in two band orders, tracked by a dict-of-bands model; calibration edit sequences to depth 4 (5). Magnitudes of -inf and +inf are among the values.''',
P21='''All operation sequences on each sky kind against the function of position it should be; all masks for the box estimator; interpolation over grid sizes and orders;
fits against the exact normal-equation solution with the prior rows written out independently. The boxes of the grid estimator must be centred on the picture.''',
P22='''Save/restore inserted at every point of every edit history: the restored object is compared with the live one and then both receive the same further edits. FITS files go to a scratch directory. Sky tables (every value exact) and the standard header keywords of images are compared field by field.''',
P23='''Differential model checking of two implementations in the same repository: every scene and history is run through the vectorised code (numpy as array library) and through the CPU rendering, getDerivs, getLogPriorDerivatives and a float64 solve. The update is compared by its effect on the model in units of sigma (2e-2 of the update plus 6e-3 of the model); the measured maxima are in the evidence.''',
P24='''The forced-photometry scenes of P14 run through the Ceres code for every block size (blocks of one row up to larger than the image) against the same dense solution; non-negative fits against NNLS; general fits judged by the optimality condition (the linearised problem at the result offers no further gain) and by the true change of the objective. Where a bound is active only feasibility and gain are claimed: Ceres's projected steps may stop early. The same scenes are run with the image arrays in every memory layout and precision of mc/scene.py (Fortran order, strided and reversed views, big-endian, read-only, single precision), because the C++ code reads raw memory: this found that forced photometry of column-major images read transposed pixels (fixed).''',
P25='''The oracle writes PSFEx files itself (fitsio, explicit term order k-major), so reader, writer and evaluator are each judged separately; operation histories are replayed on a reference (x0,y0,scale,bases). Mixture fits use one component, where EM must return the stamp's moments, and 4x4 grids, where the not-a-knot cubic spline is the unique tensor cubic (Lagrange); multi-component mixtures enter through their saved grids. PSFs that do not vary must be the same everywhere, with any number of terms.''',
P26='''Oracle: an independent float64 position model (elapsed years, ecliptic displacement towards the Sun direction in the code's own conventions, gnomonic projection) and a fixed PointSource at that place for the rendering; central differences for derivatives. Found and repaired: quotient and reflected subtraction of ArithmeticParams; derivatives when the mask misses the source crashed. Magnitude brightnesses, surface-brightness cut-offs and the Lutz-Kelker prior (parallax 0 itself left open: the code gives +inf there) have a section of their own.''',
P27='''A dense sweep is the bounded-exhaustive form here: the table has ten joints and each interval is a polynomial, so steps of .0025 (.0005) with a continuity bound between neighbours leave no room for a local fault larger than the tolerance. Requests are replayed in all orders because profiles are cached and shared. False alarm corrected: the exp/dev mixtures follow the tapered profile functions only out to 2.5-3 r_e.''',
P28='''Degenerate stamps (reference component without light or with vanishing variance) are skipped by the *reference* run, never by the result of the code. Found and repaired: fitpsf under Python 3, and callers' arrays overwritten by fitpsf.emfit and fromStamp(P0=...). False alarms corrected: the fit with background uses the previous mean in the variances (compared at convergence); the unconstrained direct fit is claimed only from near starts.''',
P29='''All rectangles, all explicit regions. Found and repaired: symmetric_integral_image could not be imported from the package.''',
P30='''The table is the product of the kinds of rows, so every option set is judged on every kind; small tables cover empty and single-row selections and all return values. Found and repaired: the CAS reader used names that do not exist; selecting by radius after a selection that left nothing crashed. Values of additional bands are claimed only where the code defines them.''',
P31='''Frames, masks and PSF fields are objects of astrometry.sdss with synthetic content, so the reader runs unchanged and every access can be made to fail. Found and repaired: SdssWcs pixel scale (degrees), copy and shift; SdssPointSource copy and equal thresholds; Image.getMedianPixelNoise; binning under Python 3; constant inverse variance image of the whole frame; SdssBrightPSF copy. False alarms corrected: astrometry's mask drawing takes one extra row and column (either accepted); source derivatives are one-sided with large steps (direction and size only).''',
P32='''Found and repaired: in the first half pixel of the map the interpolation took values from the opposite edge (Galactic plane towards l=180 and one side).''',
P33='''The oracle projects positions itself (gnomonic formulae) and decides tile contact by separating axes, which is exact because tile edges are great circles; each tile carries its own flux scale, exposure count and date, so a result tells where it was measured. Found and repaired: fields containing a pole missed the sources beyond the edge declinations. False alarms corrected: test tiles must be square (as real ones are) for nearest-centre and containment to agree; light from beyond the 10-pixel margin is not modelled by design.''',
)

TAIL = '''## Limits

* CUDA/cupy is absent: the vectorised code of `gpu_optimizer.py` is executed with numpy (P23); not claimed there: masks with holes, NullWCS/PixPos, one frozen coordinate, non-zero skies, other PSF classes.
* Survey readers are run on synthetic survey objects and files (P30-P33); fetching from the data services is not covered. galex.py, sdss_dr7.py, hst.py, diesel.py, multiproc.py and mpcache.py cannot run (missing names or modules) and are not covered.
* Floating point: claims are to the stated tolerances.
'''
