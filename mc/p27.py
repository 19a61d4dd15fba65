"""
P27: galaxy profiles.  The mixture for every Sersic index on a fine grid of the
whole range, against the Sersic law itself; in every order of requests;
renderings against the fixed-profile galaxies; index derivatives and fits over
the whole range, bounds included.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import psf_stamp

LO, HI = .29, 6.3
JOINTS = [.29, .42, .5, .51, .57, .62, .71, 1., 1.5, 3., 6.3]
R = np.array([.1, .15, .2, .3, .5, .7, 1., 1.25, 1.5])


def flat(m):
    """amplitudes, variances of a mixture of round, centred Gaussians"""
    v = np.array(m.var, float)
    expect(v.shape == (len(m.amp), 2, 2), 'shape of the variances')
    close(v[:, 0, 1], np.zeros(len(v)), 0, 1e-12, 'covariances')
    close(v[:, 1, 1], v[:, 0, 0], 1e-12, 0, 'round components')
    close(np.array(m.mean, float).ravel(), np.zeros(2 * len(v)), 0, 0, 'means')
    expect(bool(np.all(v[:, 0, 0] >= 0)), 'negative variance')
    expect(bool(np.all(np.isfinite(m.amp))), 'amplitudes')
    return np.array(m.amp, float), v[:, 0, 0]


def sb(a, v, r):
    k = v > 0
    return (a[k] / (2 * np.pi * v[k]) * np.exp(-r[:, None]**2 / 2 / v[k])).sum(axis=1)


def enclosed(a, v, r):
    vv = np.where(v > 0, v, 1.)
    return (a * np.where(v > 0, 1 - np.exp(-r[:, None]**2 / 2 / vv), 1.)).sum(axis=1)


def law(n, r):
    from scipy.special import gammaincinv
    b = gammaincinv(2 * n, .5)
    return np.exp(-b * (r**(1. / n) - 1.))


def prof(n):
    from tractor.sersic import SersicMixture
    return SersicMixture.getProfile(n)


def check_profile(m, n, what):
    nn = min(max(n, LO), HI)
    a, v = flat(m)
    close(a.sum(), 1., 0, 1e-6, what + ': total flux')
    s = sb(a, v, R)
    rel = s / s[6] / law(nn, R) - 1.
    expect(np.abs(rel).max() < .045, '%s: surface brightness relative to that at r_e is %.1f%% off the Sersic law at r=%.2f' % (what, 100 * np.abs(rel).max(), R[np.argmax(np.abs(rel))]))
    if .43 <= nn <= .8:
        expect(np.abs(rel).max() < .009, '%s: surface brightness %.2f%% off the Sersic law' % (what, 100 * np.abs(rel).max()))
    half = enclosed(a, v, np.array([1.]))[0]
    # profiles are truncated at several r_e and renormalised: up to .065 more than half for the steepest
    up = .502 if nn < .6 else .516 if nn < 1.5 else .535 if nn < 4 else .57
    expect(.494 < half < up, '%s: %.4f of the flux within the half-light radius' % (what, half))
    e = enclosed(a, v, np.array([0., .01, 8., 12.]))
    expect(e[2] > .95, '%s: only %.3f of the flux within 8 r_e' % (what, e[2]))
    expect(e[3] > .985, '%s: only %.3f of the flux within 12 r_e' % (what, e[3]))
    expect(0 <= e[0] < .03, '%s: %.3f of the flux in the core' % (what, e[0]))
    if nn <= 1.:
        expect(e[0] == 0., what + ': point-like core')
    expect(bool(np.all(np.diff(v) >= 0)), what + ': components sorted by variance')
    return a, v


def case_index(n):
    a, v = check_profile(prof(n), n, 'index %.6f' % n)
    # continuity
    for d in (1e-6, -1e-6):
        a2, v2 = flat(prof(n + d))
        r = np.array([.2, .5, 1., 2., 4.])
        diff = np.abs(enclosed(a, v, r) - enclosed(a2, v2, r)).max()
        expect(diff < 1e-3, 'enclosed flux jumps by %.5f at index %.6f' % (diff, n))


def case_run(lo, hi, step):
    """neighbouring indices have neighbouring profiles"""
    r = np.array([.2, .5, 1., 2., 4.])
    prev = None
    n = lo
    i = 0
    while n <= hi + 1e-9:
        a, v = check_profile(prof(n), n, 'index %.4f' % n)
        e = enclosed(a, v, r)
        if prev is not None:
            diff = np.abs(e - prev).max()
            expect(diff < .0008 + .4 * step, 'enclosed flux changes by %.5f between index %.4f and %.4f' % (diff, n - step, n))
        prev = e
        i += 1
        n = round(lo + i * step, 9)


def case_clamp(n):
    want = prof(LO if n < LO else HI)
    a, v = flat(prof(n))
    close(a, want.amp, 1e-12, 1e-12, 'amplitudes beyond the range')
    close(v, [x[0, 0] for x in want.var], 1e-12, 1e-12, 'variances beyond the range')


def case_order(seq):
    """requests in any order, results used and edited in between, give the same profile"""
    from tractor.sersic import SersicMixture
    want = {}
    for n in sorted(set(seq)):
        want[n] = [x.copy() for x in flat(SersicMixture()._getProfile(n))] if hasattr(SersicMixture, '_getProfile') else None
    for i, n in enumerate(seq):
        m = prof(n)
        a, v = flat(m)
        if want[n] is not None:
            close(a, want[n][0], 1e-12, 1e-12, 'request %d (index %g): amplitudes' % (i, n))
            close(v, want[n][1], 1e-12, 1e-12, 'request %d (index %g): variances' % (i, n))
        check_profile(m, n, 'request %d (index %g)' % (i, n))
        # what the galaxies do with it
        s = m.apply_affine(np.zeros(2), np.array([[2., .3], [0., 1.]]))
        c = m.copy()
        c.amp *= 3.
        c.var[:] = 1.
        m.getFourierTransform(np.linspace(0, .5, 5), np.linspace(-.5, .5, 6))


# ------------------------------------------------------------------ the fixed profiles
def case_fixed(kind):
    from tractor import mixture_profiles as mp
    from tractor import galaxy_profiles as gp
    m = dict(exp=mp.get_exp_mixture, dev=mp.get_dev_mixture)[kind]()
    n = dict(exp=1., dev=4.)[kind]
    a, v = flat(m)
    close(a.sum(), 1., 0, 1e-6, 'flux')
    s = sb(a, v, R)
    rel = s / s[6] / law(n, R) - 1.
    expect(np.abs(rel).max() < .045, '%s profile is %.1f%% off' % (kind, 100 * np.abs(rel).max()))
    f = dict(exp=gp.profile_exp, dev=gp.profile_dev)[kind]
    r = np.linspace(.05, 9., 400)
    p = f(r)
    out = dict(exp=4., dev=8.)[kind]
    cut = dict(exp=3., dev=7.)[kind]
    base = dict(exp=2048. * np.exp(-1.67835 * (r - 1.)), dev=512. * np.exp(-7.66925 * ((r * r + .0004)**.125 - 1)))[kind]
    taper = np.where(r > cut, (1 - ((r - cut) / (out - cut))**2)**2, 1.) * (r <= out)
    close(p, base * taper, 1e-9, 1e-12, 'profile_%s' % kind)
    for x in (0., .5, cut, cut + .5, out, out + 1.):
        one = f(x)
        expect(np.isscalar(one) or np.ndim(one) == 0, 'scalar')
        close(float(one), float(f(np.array([x]))[0]), 1e-12, 0, 'scalar profile')
    # the mixture is a fit to that profile
    g = np.linspace(.1, dict(exp=2.5, dev=3.)[kind], 60)
    q = f(g)
    mr = sb(a, v, g)
    r1 = (mr / mr.sum()) / (q / q.sum()) - 1
    expect(np.abs(r1).max() < .12, 'mixture and profile_%s differ by %.1f%%' % (kind, 100 * np.abs(r1).max()))


def mkimg(psf, sh=(60, 62)):
    import tractor as T
    from tractor.psf import HybridPixelizedPSF, PixelizedPSF, NCircularGaussianPSF
    if psf == 'gauss':
        p = NCircularGaussianPSF([1.3], [1.])
    else:
        y, x = np.mgrid[-12:13, -12:13]
        st = np.exp(-.5 * (x**2 + y**2) / 1.3**2) / (2 * np.pi * 1.3**2)
        p = HybridPixelizedPSF(PixelizedPSF(st.astype(np.float32)), gauss=NCircularGaussianPSF([1.3], [1.]))
    return T.Image(data=np.zeros(sh, np.float32), invvar=np.ones(sh, np.float32), psf=p, wcs=T.NullWCS(), photocal=T.LinearPhotoCal(1.), sky=T.ConstantSky(0.))


def paint(p, sh):
    m = np.zeros(sh)
    if p is not None:
        p.addTo(m)
    return m


def ser(n, re=3., e1=.2, e2=-.1, pos=(30.3, 29.6), flux=100.):
    import tractor as T
    from tractor.sersic import SersicGalaxy, SersicIndex
    from tractor.ellipses import EllipseE
    return SersicGalaxy(T.PixPos(*pos), T.Flux(flux), EllipseE(re, e1, e2), SersicIndex(n))


def case_twin(kind, psf, re, e1, e2, pos):
    """indices .5, 1 and 4 are the Gaussian, exponential and de Vaucouleurs galaxies"""
    import tractor as T
    from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy
    from tractor.ellipses import EllipseE
    im = mkimg(psf)
    n = dict(gauss=.5, exp=1., dev=4.)[kind]
    C = dict(gauss=GaussianGalaxy, exp=ExpGalaxy, dev=DevGalaxy)[kind]
    g = C(T.PixPos(*pos), T.Flux(100.), EllipseE(re, e1, e2))
    s = ser(n, re * (np.sqrt(2 * np.log(2.)) if kind == 'gauss' else 1.), e1, e2, pos)
    a, b = paint(g.getModelPatch(im), im.shape), paint(s.getModelPatch(im), im.shape)
    close_img(b, a, .004 * a.max(), 'Sersic galaxy of index %g and %s' % (n, C.__name__))


def case_flux(n, psf, re):
    """the flux lands in the image, and falls off as the law says"""
    im = mkimg(psf, (140, 142))
    g = ser(n, re, 0., 0., (70.2, 69.7))
    m = paint(g.getModelPatch(im), im.shape)
    expect(np.all(np.isfinite(m)), 'not finite')
    tot = m.sum() / 100.
    expect((.97 if n < 2 else .9) < tot < 1.005, '%.4f of the flux in the image' % tot)
    half = m[np.hypot(*(np.mgrid[:140, :142] - np.array([69.7, 70.2])[:, None, None])) < re].sum() / 100.
    a, v = flat(prof(n))
    want = enclosed(a, v + 1.3**2 / re**2, np.array([1.]))[0]
    expect(abs(half - want) < .02, '%.4f of the flux within the half-light radius, expected %.4f' % (half, want))


def case_deriv(n, psf, frozen):
    im = mkimg(psf)
    g = ser(n)
    for f in frozen:
        g.freezeParam(f)
    names = list(g.getParamNames())
    D = g.getParamDerivatives(im)
    same(len(D), len(names), 'number of derivatives')
    same(float(g.sersicindex.getValue()), n, 'index after differentiating')
    if 'sersicindex' in frozen:
        return
    i = [k for k, x in enumerate(names) if x.startswith('sersicindex')]
    same(len(i), 1, 'index parameters')
    got = paint(D[i[0]], im.shape)
    m0 = paint(ser(n).getModelPatch(im), im.shape)
    cands = []
    for h in (.01, -.01, .002, -.002):
        if LO <= n + h <= HI:
            cands.append((paint(ser(n + h).getModelPatch(im), im.shape) - m0) / h)
    sc = max(np.abs(c).max() for c in cands)
    err = [np.abs(got - c).max() / sc for c in cands]
    expect(min(err) < .05, 'index derivative differs from the difference quotients inside the allowed range by %.3f of their maximum' % min(err))


def case_fit(n0, start, psf, opt):
    import tractor as T
    from mc.p11 import optimizers
    im = mkimg(psf)
    truth = ser(n0, 4.)
    im.data = paint(truth.getModelPatch(im), im.shape).astype(np.float32)
    im.setInvvar(np.ones(im.shape, np.float32) * 400.)
    g = ser(start, 4.)
    g.setParams([30.5, 29.4, 90., 3.6, .15, -.05, start])
    tr = T.Tractor([im], [g], optimizer=dict(optimizers())[opt]())
    tr.freezeParam('images')
    for step in range(60):
        r = tr.optimize(shared_params=False)
        expect(LO <= g.sersicindex.getValue() <= HI, 'index %.4f out of its range' % g.sersicindex.getValue())
        if r[0] < 1e-4:
            break
    n = g.sersicindex.getValue()
    m = paint(g.getModelPatch(im), im.shape)
    close_img(m, im.data.astype(float), .01 * im.data.max(), 'fitted image (index %.3f, truth %.3f, from %.3f)' % (n, n0, start))


def run(ck):
    from mc.p11 import optimizers
    ck.assumptions.append('the Sersic law is required to 4.5% (0.9% for indices .43-.8) between .1 and 1.5 half-light radii: the mixtures are fits to truncated profiles')
    big = ck.thorough
    CASES = dict(index=case_index, run=case_run, clamp=case_clamp, order=case_order, fixed=case_fixed, twin=case_twin, flux=case_flux, deriv=case_deriv, fit=case_fit)

    def doit(sub, it):
        kind, a = it
        sub.step(len(a[0]) if kind == 'order' else int(round((a[1] - a[0]) / a[2])) if kind == 'run' else 1)
        sub.case('%s %s' % (kind, ' '.join(str(x).replace("'", '') for x in a)), CASES[kind], *a)

    def go(items):
        n = max(1, min(20, len(items) // 24))
        ck.shards([items[i:i + n] for i in range(0, len(items), n)], lambda sub, its: [doit(sub, it) for it in its])

    step = .0005 if big else .0025
    edges = [.29, .35, .42, .5, .57, .65, .71, .9, 1.2, 1.5, 1.9, 2.3, 2.7, 3., 3.5, 4., 4.5, 5., 5.5, 6., 6.3]
    it = [('run', (a, b, step)) for a, b in zip(edges[:-1], edges[1:])]
    it += [('index', (j + d,)) for j in JOINTS for d in (-1e-3, -1e-9, 0., 1e-9, 1e-3)] + [('index', (float(x),)) for x in np.round(np.arange(.3, 6.3, .1), 3)]
    it += [('clamp', (n,)) for n in (-1., 0., .1, .2899, 6.3001, 7., 100.)] + [('fixed', (k,)) for k in ('exp', 'dev')]
    ck.section('profiles', 'every index from .29 to 6.3 in steps of %g, range joints, clamping: flux, half-light radius, slope, core, continuity' % step)
    go(it)

    menu = [.35, .5, 1., 1.8, 4., 6.3, 7.]
    it = [('order', (s,)) for L in range(1, 4 if big else 3) for s in itertools.product(menu, repeat=L)] + [('order', (tuple(menu) * 2,)), ('order', (tuple(menu + menu[::-1]),))]
    ck.section('requests', '%d sequences of requests for %d indices, results used in between' % (len(it), len(menu)))
    go(it)

    it = [('twin', (k, p, re, e1, e2, pos)) for k in ('gauss', 'exp', 'dev') for p in ('gauss', 'hybrid') for re in (1., 3., 6.) for e1, e2 in ((0., 0.), (.3, -.2)) for pos in ((30., 29.), (30.3, 28.6))]
    it += [('flux', (n, p, re)) for n in (.3, .415, .5, .54, .6, .65, .75, 1., 1.3, 1.6, 2., 2.5, 3., 3.5, 4., 5., 6.3) for p in ('gauss', 'hybrid') for re in (4., 8.)]
    ck.section('renderings', '%d: fixed-profile twins; flux and light within r_e' % len(it))
    go(it)

    grid = [.29, .295, .35, .409, .41, .415, .42, .45, .495, .5, .505, .51, .55, .565, .57, .6, .615, .62, .7, .705, .71, .9, .995, 1., 1.005, 1.4, 1.495, 1.5, 2., 2.995, 3., 4., 6., 6.285, 6.29, 6.295, 6.3]
    it = [('deriv', (n, p, ())) for n in grid for p in ('gauss', 'hybrid')]
    it += [('deriv', (n, p, f)) for n in (.41, 1.6, 6.295) for p in ('gauss', 'hybrid') for k in range(1, 4) for f in itertools.combinations(('pos', 'brightness', 'shape', 'sersicindex'), k)]
    it += [('fit', (n0, s, p, o)) for n0 in (.4, .55, .8, 1., 1.4, 2., 3., 4.5) for s in (n0 * .8, n0 * 1.25, min(n0 + .3, 6.)) if s >= .29 for p in (('gauss', 'hybrid') if big else ('hybrid',))
           for o in ('lsqr', 'constrained', 'dense')]
    ck.section('index derivatives and fits', '%d: derivatives over the range, bounds and frozen states; noiseless fits of the index' % len(it))
    go(it)
