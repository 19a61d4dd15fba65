"""
P24: the Ceres optimiser finds the optimum the model defines.

A: forced photometry through Ceres: the scenes of P14 x block sizes x threads against
   the dense float64 least-squares solution.
B: non-negative fluxes against non-negative least squares.
C: general fits: scenes x options x priors x bounds x frozen states: the reported gain
   is the true one, the result is a (constrained) optimum, variances are those of the
   linearised problem, nothing else changes.
D: histories of fits, edits, freezes.
"""
import itertools
import numpy as np
from mc import p11, p14, scene
from mc.core import expect, close, same


def ceres(BW=10, BH=10, threads=None):
    from tractor.ceres_optimizer import CeresOptimizer
    return CeresOptimizer(BW=BW, BH=BH, threads=threads)


def check_forced(ck, block, threads, *args):
    p14.check(ck, *args, opt=ceres(block[0], block[1], threads))


def check_nonneg(ck, kinds, nim, zi, sky, start, truth, block, negval):
    from scipy.optimize import nnls
    old = p14.FLUX[:]
    try:
        p14.FLUX[:] = truth
        tr, S0, ims0, data = p14.build(kinds, nim, zi, (), False, sky, start, 0., ceres(*block))
    finally:
        p14.FLUX[:] = old
    units, base, cut, ie, cols, A, b = p14.reference(S0, ims0, data, (), sky, None)
    fm, fv = p14.frozen_values(tr)
    kw = {} if negval is None else dict(negfluxval=negval)
    R = tr.optimize_forced_photometry(nonneg=True, **kw)
    p = np.array(tr.getParams())
    close(np.array(tr.getAllParams())[fm], fv, rtol=0, atol=0, what='frozen parameters')
    expect(np.all(np.isfinite(p)) and np.all(p >= 0), 'fluxes %s', p)
    x, _ = nnls(A, b)
    c0, c1 = ((b - A.dot(x))**2).sum(), ((b - A.dot(p))**2).sum()
    expect(c1 <= c0 + .02 + 2e-3 * (((b**2).sum()) - c0), 'fluxes %s with chi-squared %g; %s give %g', p, c1, x, c0)
    same(len(R.ims1), nim, 'final images')
    for j, (im, mod, e, chi, roi) in enumerate(R.ims1):
        m = base[j].copy()
        for c, v in zip(cols, p):
            m += c[j] * v
        close(mod, m, rtol=0, atol=3e-3 * (1 + np.abs(m).max()), what='final model %d' % j)
    ck.step()
    ck.outcome(tuple(np.round(p, 0)))


def residuals(tr, priors):
    r = [np.array(tr.getChiImage(i), float).ravel() for i in range(len(tr.images))]
    if priors:
        p = np.array(tr.getParams(), float)
        r.append(np.array([(p[i] - mu) / sig for i, mu, sig in tr.getGaussianPriors()]))
    return np.hstack(r)


def jac(tr, priors):
    """central differences of the residuals"""
    p = np.array(tr.getParams(), float)
    J = []
    for i, s in enumerate(tr.getStepSizes()):
        s = 2e-2 * abs(s) if abs(s) > 1e-3 else s
        s = max(s, 1e-3 * abs(p[i]))
        q = p.copy()
        q[i] = p[i] + s
        tr.setParams(q)
        a = residuals(tr, priors)
        q[i] = p[i] - s
        tr.setParams(q)
        b = residuals(tr, priors)
        J.append((a - b) / (2 * s))
    tr.setParams(p)
    return np.array(J).T


def derivs(tr, priors):
    """the same from the model derivatives"""
    J = []
    p = list(tr.getParams())
    for lst in tr.getDerivs():
        im = [np.zeros(I.shape) for I in tr.images]
        for patch, I in lst:
            patch.addTo(im[[i for i, x in enumerate(tr.images) if x is I][0]])
        J.append(np.hstack([-(a * I.getInvError()).ravel() for a, I in zip(im, tr.images)]))
    J = np.array(J).T
    if priors:
        g = tr.getGaussianPriors()
        P = np.zeros((len(g), len(p)))
        for k, (i, mu, sig) in enumerate(g):
            P[k, i] = 1. / sig
        J = np.concatenate((J, P))
    return J


def optimum(tr, priors, bounds, what, tol=.02, numeric=False):
    """the parameters are a local optimum (unless a bound is in the way)"""
    p = np.array(tr.getParams(), float)
    r, J = residuals(tr, priors), (jac if numeric else derivs)(tr, priors)
    free = np.ones(len(p), bool)
    if bounds:
        for i, (l, u) in enumerate(zip(tr.getLowerBounds(), tr.getUpperBounds())):
            e = 1e-6 * max(1., abs(p[i]))
            expect(l is None or p[i] >= l - e, '%s: parameter %d = %g below its bound %s', what, i, p[i], l)
            expect(u is None or p[i] <= u + e, '%s: parameter %d = %g above its bound %s', what, i, p[i], u)
            sc = max(np.linalg.norm(J[:, i]), 1e-12)
            if (l is not None and (p[i] - l) * sc < .05) or (u is not None and (u - p[i]) * sc < .05):
                # at a bound, Ceres's projected steps may stop early
                return J
    n = np.linalg.norm(J, axis=0)
    free &= n > 0
    gain = 0.
    if free.any():
        d = np.linalg.lstsq(J[:, free] / n[free], -r, rcond=1e-6)[0] / n[free]
        gain = .5 * ((r**2).sum() - ((r + J[:, free].dot(d))**2).sum())
    expect(gain < tol, '%s: the fit stopped at %s, %g in log-probability short of the optimum', what, p, gain)
    return J


OPTIONS = [dict(), dict(scaled=False), dict(dynamic_scale=False), dict(numeric=True, numeric_stepsize=.02), dict(scale_columns=False),
           dict(scaled=False, numeric=True, numeric_stepsize=1e-4)]
PRIORS = [(), ((0, 'x', 1.03, .05),), ((0, 'x', .97, .1), (0, 'y', 1.1, .2)), ((-1, 'y', .95, .02), (0, 're', 1.3, .1))]
BOUNDS = [(), ((0, 'flux', None, .9),), ((0, 'flux', 1.05, None), (0, 'x', None, .99)), ((-1, 'y', .5, 1.5),), ((-1, 'flux', .2, .95), (-1, 'x', 1.01, 9.))]
TRUE = [(6.3, 5.8, 100.), (3.2, 8.4, 60.)]


def clamp(v, lo, hi):
    v = v if lo is None else max(v, lo)
    return v if hi is None else min(v, hi)


def decorate(tr, priors, bounds):
    """Gaussian priors and bounds as fractions of the true values"""
    for si, nm, mu, sig in priors:
        s = tr.catalog[si % len(tr.catalog)]
        if nm == 're':
            if hasattr(s, 'shape'):
                s.shape.addGaussianPrior('re', s.shape.re * mu, sig)
        else:
            t = dict(zip('xy', TRUE[si % len(tr.catalog)]))[nm]
            s.pos.addGaussianPrior(nm, t * mu, sig)
    for si, nm, lo, hi in bounds:
        t = dict(zip(('x', 'y', 'flux'), TRUE[si % len(tr.catalog)]))[nm]
        s = tr.catalog[si % len(tr.catalog)]
        lo, hi = [None if v is None else v * t for v in (lo, hi)]
        if nm == 'flux':
            s.brightness.lower, s.brightness.upper = lo, hi
            v = s.brightness.getValue()
            s.brightness.setParams([clamp(v, lo, hi)])
        else:
            i = 'xy'.index(nm)
            s.pos.lowers[i], s.pos.uppers[i] = lo, hi
            v = getattr(s.pos, nm)
            setattr(s.pos, nm, clamp(v, lo, hi))


def onefit(ck, tr, priors, bounds, kw, what, loop=False):
    fm = p11.frozen_mask(tr)
    fv = np.array(tr.getAllParams())[fm]
    data = [(im.getImage().copy(), im.getInvError().copy()) for im in tr.images]
    names = list(tr.getParamNames())
    n = len(names)
    r0 = residuals(tr, priors)
    args = dict(kw, priors=priors, bounds=bounds, dlnp=1e-6, max_iterations=100, print_progress=False)
    if loop:
        R = tr.optimizer.optimize_loop(tr, **args)
        gain = 0. if R is None else R['initial_cost'] - R['final_cost']
        var = None
    else:
        R = tr.optimizer.optimize(tr, variance=True, **args)
        same(len(R), 4, what + ': result')
        gain, var = R[0], R[3]
    ck.step()
    r1 = residuals(tr, priors)
    close(gain, .5 * ((r0**2).sum() - (r1**2).sum()), rtol=1e-4, atol=1e-3, what=what + ': reported gain')
    expect(gain >= -1e-9, '%s: negative gain %g', what, gain)
    close(np.array(tr.getAllParams())[fm], fv, rtol=0, atol=0, what=what + ': frozen parameters')
    same(list(tr.getParamNames()), names, what + ': parameter names')
    for im, (d, ie) in zip(tr.images, data):
        expect(np.array_equal(im.getImage(), d) and np.array_equal(im.getInvError(), ie), '%s: image data changed', what)
    if n == 0:
        return
    J = optimum(tr, priors, bounds, what, numeric=kw.get('numeric'))
    if var is not None:
        C = np.linalg.inv(J.T.dot(J))
        close(np.sqrt(var), np.sqrt(np.diag(C)), rtol=.05, atol=0, what=what + ': errors of the parameters')


def check_fit(ck, kinds, nim, start, sky, frozen, pi, bi, kw, loop):
    tr = p11.build(kinds, nim, ceres(), start, sky, False)
    for si, nm in frozen:
        if si < len(kinds) and hasattr(tr.catalog[si], nm):
            tr.catalog[si].freezeParam(nm)
    decorate(tr, PRIORS[pi], BOUNDS[bi])
    onefit(ck, tr, bool(pi), bool(bi), kw, 'fit', loop)
    ck.outcome(tuple(np.round(tr.getParams(), 1)))
    ck.state((kinds, nim, start, sky, frozen, pi, bi, tuple(sorted(kw.items()))))


OPS = ['fit', 'loop', 'move', 'dim', 'freeze-pos', 'thaw', 'freeze-source', 'sky', 'prior']


def history(ck, kinds, nim, ops):
    tr = p11.build(kinds, nim, ceres(), (.3, .7, 1.2), False, False)
    pri = False
    for i, op in enumerate(ops):
        what = 'op %d (%s)' % (i, op)
        s = tr.catalog[0]
        if op in ('fit', 'loop'):
            onefit(ck, tr, pri, False, {}, what, op == 'loop')
        elif op == 'move':
            s.pos.x += .4
            s.pos.y -= .3
        elif op == 'dim':
            s.brightness.setParams([.8 * v for v in s.brightness.getParams()])
        elif op == 'freeze-pos':
            s.freezeParam('pos')
        elif op == 'thaw':
            s.thawAllParams()
            tr.catalog.thawAllParams()
        elif op == 'freeze-source':
            tr.catalog.freezeParam(0)
        elif op == 'sky':
            tr.thawParam('images')
            for im in tr.images:
                im.freezeAllBut('sky')
        elif op == 'prior':
            s.pos.addGaussianPrior('x', 6.4, .05)
            pri = True
    onefit(ck, tr, pri, False, {}, 'final fit')
    ck.state((kinds, nim, ops))


def run(ck):
    th = ck.thorough
    blocks = [(10, 10), (4, 5), (3, 1), (40, 40)]
    K = [('point',), ('comp',), ('point', 'point'), ('exp', 'point')] + ([('point', 'gauss', 'point'), ('dev', 'comp')] if th else [])
    items = [(k, nim, b, t) for k in K for nim in (1, 2, 3) for b, t in [(b, None) for b in blocks] + [((4, 5), 2)]]
    ck.section('A forced photometry', 'source lists x 1-3 images x %d block sizes (one with two threads) x masked pixels x frozen sources x far sources x sky x regions x starts' % len(blocks))

    def shA(sub, it):
        kinds, nim, block, threads = it
        n = len(kinds)
        for frozen in [f for r in range(n + 1) for f in itertools.combinations(range(n), r)]:
            for zi, far, sky in itertools.product(range(3), (False, True), (False, True)):
                for ri in ((0, 1) if not sky else (0,)):
                    for start in (p14.STARTS if th else p14.STARTS[1:2]):
                        for ki, kw in enumerate([dict(variance=True, skyvariance=True), dict(fitstats=True, variance=True)]):
                            if ki and block != (4, 5):
                                continue
                            sub.case(('forced', kinds, nim, block, threads, zi, frozen, far, sky, start, ri, ki), check_forced, sub, block, threads,
                                     kinds, nim, zi, frozen, far, sky, start, ri, kw, 1.)
    ck.shards(items, shA)
    ck.section('B non-negative', 'source lists x images x masks x starts x signs of the true fluxes x block sizes')
    KB = [('point',), ('point', 'point'), ('exp', 'point'), ('point', 'gauss', 'point')]
    truths = list(itertools.product((80., -30., 0.), (40., -60.), (25., -10.)))
    items = [(k, nim, zi) for k in KB for nim in (1, 2, 3) for zi in range(3)]

    def shB(sub, it):
        kinds, nim, zi = it
        for start in p14.STARTS:
            for t in sorted(set(tr[:len(kinds)] for tr in truths)):
                for block, negval in (((10, 10), None), ((4, 5), 1.)):
                    sub.case(('nonneg', kinds, nim, zi, start, t, block), check_nonneg, sub, kinds, nim, zi, False, start, list(t) + [0.] * 3, block, negval)
    ck.shards(items, shB)
    KC = [('point',), ('gauss',), ('point', 'point'), ('exp', 'point')] + ([('dev',), ('exp', 'gauss')] if th else [])
    FR = [(), ((0, 'pos'),), ((0, 'brightness'), (0, 'shape')), ((0, 'shape'), (1, 'pos')), ((0, 'pos'), (0, 'brightness'), (0, 'shape'))]
    items = [(k, nim, sky) for k in KC for nim in (1, 2) for sky in (False, True)]
    ck.section('C fits', 'scenes x %d options x %d priors x %d bounds x %d frozen states' % (len(OPTIONS), len(PRIORS), len(BOUNDS), len(FR)))

    def shC(sub, it):
        kinds, nim, sky = it
        for start in p11.STARTS[:2]:
            for fi, f in enumerate(FR):
                for oi, kw in enumerate(OPTIONS):
                    for pi in range(len(PRIORS)):
                        for bi in range(len(BOUNDS)):
                            if not th and ((fi > 0) + (oi > 0) + (pi > 0) + (bi > 0) > 1):
                                continue
                            if th and fi and oi and pi and bi:
                                continue
                            for loop in (False, True) if not (fi or oi) else (False,):
                                sub.case(('fit', kinds, nim, sky, start, f, oi, pi, bi, loop), check_fit, sub, kinds, nim, start, sky, f, pi, bi, kw, loop)
    ck.shards(items, shC)
    n = 4 if th else 3
    seqs = [o for k in range(1, n + 1) for o in itertools.product(OPS, repeat=k)]
    items = [(k, nim, o[0]) for k, nim in ((('point',), 1), (('point', 'point'), 2)) for o in [(x,) for x in OPS]]
    ck.section('D histories', 'all sequences of up to %d of %s, then a fit' % (n, ', '.join(OPS)))

    def shD(sub, it):
        kinds, nim, first = it
        for o in seqs:
            if o[0] == first:
                sub.case(('history', kinds, nim) + o, history, sub, kinds, nim, o)
    ck.shards(items, shD)
    ck.section('E memory layouts', 'image arrays in %s order: forced photometry x scenes x block sizes x skies x regions, non-negative fluxes, fits x options' % ', '.join(scene.LAYOUTS))

    def shE(sub, how):
        for kinds in K:
            for nim, block, zi, sky, ri in itertools.product((1, 2, 3), blocks, (0, 1), (False, True), (0, 1)):
                if sky and ri:
                    continue
                sub.case(('layout', how, kinds, nim, block, zi, sky, ri), scene.laid, how, check_forced, sub, block, None, kinds, nim, zi, (), False, sky,
                         p14.STARTS[1], ri, dict(variance=True), 1.)
        for kinds in KB:
            for nim in (1, 2):
                sub.case(('layout', how, 'nonneg', kinds, nim), scene.laid, how, check_nonneg, sub, kinds, nim, 1, False, p14.STARTS[1], [80., -60., 25.], (4, 5), 1.)
        for kinds in KC:
            for nim, sky in itertools.product((1, 2), (False, True)):
                for oi, kw in enumerate(OPTIONS):
                    sub.case(('layout', how, 'fit', kinds, nim, sky, oi), scene.laid, how, check_fit, sub, kinds, nim, p11.STARTS[0], sky, (), 0, 0, kw, False)
    ck.shards(scene.LAYOUTS, shE)
    ck.assumptions.append('fluxes of sources that touch no pixel are not claimed (Ceres sets them to zero); priors are used only when asked for (priors=True)')
