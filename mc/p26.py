"""
P26: moving sources.  Positions at every time against plain vector astrometry;
models and derivatives in every frozen state; histories of edits, copies and
pickles; multi-epoch fits of every subset of the parameters; times and the
arithmetic of positions, motions and times.
"""
import itertools
import pickle
import numpy as np
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import tan, psf_stamp

DAY = 86400.
EQUINOX = 53084.28          # MJD of the 2004 spring equinox
TILT = np.deg2rad(23.44)


def truepos(ra, dec, pmra, pmdec, par, mjd, epoch):
    """degrees, degrees/Julian year in the coordinates, arcsec"""
    dt = (mjd - epoch) / 365.25
    a, d = np.deg2rad(ra + dt * pmra), np.deg2rad(dec + dt * pmdec)
    n = np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
    th = 2 * np.pi * (mjd - EQUINOX) / 365.25
    sun = np.array([np.cos(th), np.sin(th) * np.cos(TILT), np.sin(th) * np.sin(TILT)])
    v = n + par * np.pi / (180. * 3600.) * sun
    return np.rad2deg(np.arctan2(v[1], v[0])) % 360., np.rad2deg(np.arctan2(v[2], np.hypot(v[0], v[1])))


def ang(r1, d1, r2, d2):
    """separation in arcsec, by components"""
    dr = (r1 - r2 + 180.) % 360. - 180.
    return np.hypot(dr * np.cos(np.deg2rad(d1)), d1 - d2) * 3600.


def T(mjd):
    from tractor.tractortime import TAITime
    return TAITime(mjd * DAY)


def mksrc(ra=10., dec=20., pm=(1e-4, -5e-5), par=.3, epoch=EQUINOX + 40., flux=100.):
    import tractor as TR
    from tractor.motion import MovingPointSource, PMRaDec
    return MovingPointSource(TR.RaDecPos(ra, dec), TR.Flux(flux), PMRaDec(*pm), par, epoch=T(epoch))


# ------------------------------------------------------------------ positions
def case_position(ra, dec, pm, par, epoch):
    s = mksrc(ra, dec, pm, par, epoch)
    p0 = list(s.getParams())
    for rnd in range(2):
        for dt in (0., 45.65625, 91.3125, 182.625, 300., 365.25, 3652.5, -91.3125, -3000.):
            mjd = epoch + dt
            p = s.getPositionAtTime(T(mjd))
            r, d = truepos(ra, dec, pm[0], pm[1], par, mjd, epoch)
            sep = ang(float(p.ra), float(p.dec), r, d)
            expect(sep < 1e-6, 'position %g days after the epoch is %g arcsec off: (%.8f,%.8f) instead of (%.8f,%.8f)' % (dt, sep, p.ra, p.dec, r, d))
            same((s.pos.ra, s.pos.dec), (ra, dec), 'reference position after use')
    same(list(s.getParams()), p0, 'parameters after use')


# ------------------------------------------------------------------ times and arithmetic
def case_time(mjd):
    from tractor.tractortime import TAITime
    import datetime
    for t in (TAITime(mjd * DAY), TAITime(None, mjd=mjd)):
        close(t.toMjd(), mjd, 1e-14, 1e-9, 'MJD')
        close(t.toYears(), mjd / 365.25, 1e-13, 0, 'years since the zero point')
        close(t.toYear(), 2000. + (mjd - 51544.5) / 365.25, 1e-12, 0, 'calendar year')
        th = 2 * np.pi * (mjd - EQUINOX) / 365.25
        close([np.cos(t.getSunTheta()), np.sin(t.getSunTheta())], [np.cos(th), np.sin(th)], 0, 1e-9, 'solar angle')
    date = datetime.datetime(2000, 1, 1, 12) + datetime.timedelta(days=int(mjd - 51544))
    close(TAITime(None, date=date).toMjd(), 51544.5 + int(mjd - 51544), 0, 1e-6, 'MJD of a date')
    for mj2 in (51544.5, 55000.25):
        d = TAITime(mjd * DAY) - TAITime(mj2 * DAY)
        close(d.toYears(), (mjd - mj2) / 365.25, 1e-9, 1e-9, 'difference of times')


def objects():
    import tractor as TR
    from tractor.motion import PMRaDec, Parallax
    from tractor.tractortime import TAITime
    return {'RaDecPos': lambda k: TR.RaDecPos(10. + k, 20. - 3 * k), 'PMRaDec': lambda k: PMRaDec(.5 + k, -.25 * (k + 1)),
            'Parallax': lambda k: Parallax(.5 + k), 'TAITime': lambda k: TAITime(1000. + 10 * k)}


EXPRS = ['a + b', 'a - b', 'a * b', 'a / b', 'a + x', 'a - x', 'a * x', 'a / x', 'x + a', 'x - a', 'x * a', 'x / a', 'a - a', 'a + x * b', '(a + b) / x']
INPLACE = ['+=', '-=', '*=', '/=']


def val(o):
    return [float(v) for v in o.getAllParams()]


def case_arith(kind, expr, froz, x):
    mk = objects()[kind]
    a, b = mk(0), mk(1)
    if froz and hasattr(a, 'freezeParam') and a.numberOfParams():
        for o, w in ((a, froz & 1), (b, froz & 2)):
            if w and len(o.getAllParams()) > 1:
                o.freezeParam(0)
    va, vb = np.array(val(a)), np.array(val(b))
    want = eval(expr, dict(a=va, b=vb, x=x))
    got = eval(expr, dict(a=a, b=b, x=x))
    expect(type(got) is type(a), '%s gives a %s' % (expr, type(got).__name__))
    expect(got is not a and got is not b, '%s gives an operand' % expr)
    close(val(got), list(want), 1e-12, 1e-12, expr)
    close([val(a), val(b)], [list(va), list(vb)], 0, 0, 'operands of ' + expr)
    got.setAllParams([7.] * len(va))
    close([val(a), val(b)], [list(va), list(vb)], 0, 0, 'operands after the result of %s is edited' % expr)


def case_inplace(kind, op, other, x):
    mk = objects()[kind]
    a, b = mk(0), mk(1)
    va, vb = np.array(val(a)), np.array(val(b))
    env, ref = dict(a=a, b=b, x=x), dict(a=va.copy(), b=vb, x=x)
    exec('a %s %s' % (op, other), env)
    exec('a = a %s %s' % (op[0], other), ref)
    expect(env['a'] is a, 'in-place %s makes a new object' % op)
    close(val(a), list(ref['a']), 1e-12, 1e-12, 'a %s %s' % (op, other))
    close(val(b), list(vb), 0, 0, 'other operand')


# ------------------------------------------------------------------ models
def psfs():
    from tractor.psf import PixelizedPSF, NCircularGaussianPSF, GaussianMixturePSF, HybridPixelizedPSF
    g = lambda: GaussianMixturePSF(np.array([.6, .4]), np.array([[0., 0.], [.3, -.2]]), np.array([[[3., .5], [.5, 2.]], [[5., 0.], [0., 6.]]]))
    return {'circ': lambda: NCircularGaussianPSF([1.5, 2.5], [.7, .3]), 'mog': g, 'pix': lambda: PixelizedPSF(psf_stamp(11).astype(np.float32)),
            'hybrid': lambda: HybridPixelizedPSF(PixelizedPSF(psf_stamp(11).astype(np.float32)), gauss=NCircularGaussianPSF([1.5], [1.]))}


SC = 1e-4       # degrees per pixel


def mkimg(psf, mjd, ra=10., dec=20., rot=0., sh=(36, 38), cal=2.):
    import tractor as TR
    from tractor.wcs import ConstantFitsWcs
    from astrometry.util.util import Tan
    c, s = np.cos(rot), np.sin(rot)
    w = Tan(ra, dec, 19.3, 18.1, -SC * c, SC * s, SC * s, SC * c, float(sh[1]), float(sh[0]))
    return TR.Image(data=np.zeros(sh, np.float32), invvar=np.ones(sh, np.float32), psf=psfs()[psf](), wcs=ConstantFitsWcs(w),
                    photocal=TR.LinearPhotoCal(cal), sky=TR.ConstantSky(0.), time=T(mjd))


def still(vals, img, epoch, mjd, minsb=0., **kw):
    """image of a fixed point source where the moving one is"""
    import tractor as TR
    ra, dec, flux, pmra, pmdec, par = vals
    r, d = truepos(ra, dec, pmra, pmdec, par, mjd, epoch)
    p = TR.PointSource(TR.RaDecPos(r, d), TR.Flux(flux)).getModelPatch(img, minsb=minsb, **kw)
    m = np.zeros(img.shape)
    if p is not None:
        p.addTo(m)
    return m


def paint(p, img):
    m = np.zeros(img.shape)
    if p is not None:
        p.addTo(m)
    return m


STEPS = dict(pos=1e-7, pm=1e-7, parallax=1e-4)
NAMES = ['pos.ra', 'pos.dec', 'brightness.Flux', 'pm.pmra', 'pm.pmdec', 'parallax.Parallax']


def small_steps(s):
    s.pos.setStepSizes([STEPS['pos']] * 2)
    s.pm.setStepSizes([STEPS['pm']] * 2)


def Flux(x):
    import tractor as TR
    return TR.Flux(x)


def check_model(s, img, vals, epoch, mjd, mask, what, names=NAMES, derivs=True):
    kw = {} if mask is None else dict(modelMask=mask)
    want = still(vals, img, epoch, mjd, **kw)
    close_img(paint(s.getModelPatch(img, **kw), img), want, 2e-5 * abs(vals[2]), what + ': model image')
    un = paint(s.getUnitFluxModelPatch(img, **kw), img)
    v1 = list(vals)
    v1[2] = 1. / float(img.getPhotoCal().brightnessToCounts(Flux(1.)))
    close_img(un, still(v1, img, epoch, mjd, **kw), 2e-5, what + ': unit-flux image')
    if not derivs:
        return
    # a stamp jumps where its centre moves to the next pixel: not differentiable there
    from tractor.psf import NCircularGaussianPSF, GaussianMixturePSF
    import tractor as TR
    px = img.getWcs().positionToPixel(TR.RaDecPos(*truepos(vals[0], vals[1], vals[3], vals[4], vals[5], mjd, epoch)))
    if not isinstance(img.getPsf(), (NCircularGaussianPSF, GaussianMixturePSF)) and min(abs(x - np.floor(x) - .5) for x in px) < .02:
        return
    D = s.getParamDerivatives(img, **kw)
    same(len(D), len(names), what + ': number of derivatives')
    same(list(s.getParamNames()), list(names), what + ': parameter names')
    same(list(s.getParams()), [vals[NAMES.index(n)] for n in names], what + ': parameters after differentiating')
    for n, d in zip(names, D):
        i = NAMES.index(n)
        h = dict(pos=2e-7, pm=2e-7, brightness=.5, parallax=7e-4)[n.split('.')[0]]
        a, b = list(vals), list(vals)
        a[i] += h
        b[i] -= h
        if mask is not None and np.abs(want).max() == 0:
            wd = np.zeros(img.shape)
        else:
            wd = (still(a, img, epoch, mjd, **kw) - still(b, img, epoch, mjd, **kw)) / (2 * h)
        gd = paint(d, img)
        # per-pixel motion is SC degrees
        scale = abs(vals[2]) * dict(pos=1. / SC, pm=max(1., abs(mjd - epoch) / 365.25) / SC, brightness=1. / max(abs(vals[2]), 1e-9) * 2, parallax=1. / 3600. / SC)[n.split('.')[0]]
        close_img(gd / scale, wd / scale, 3e-3, '%s: derivative with respect to %s' % (what, n))


def masks(kind, img):
    from tractor.patch import ModelMask
    H, W = img.shape
    if kind == 'none':
        return None
    if kind == 'box':
        return ModelMask(8, 6, 20, 22)
    if kind == 'off':
        return ModelMask(0, 0, 4, 5)
    m = np.zeros((22, 20), bool)
    m[2:-3, 3:] = True
    m[8, 9] = False
    return ModelMask(8, 6, m)


def case_render(psf, mjd, dec, rot, mask, pm, par, off):
    epoch = EQUINOX + 40.
    ra = 0.0002
    img = mkimg(psf, mjd, 0., dec, rot)
    # the reference position is such that the source is near the middle of the image at the image's time
    r, d = truepos(0., dec, pm[0], pm[1], par, mjd, epoch)
    r0, d0 = (0. - (r + 180.) % 360. + 180.) + off[0] * SC, 2 * dec - d + off[1] * SC
    s = mksrc(r0, d0, pm, par, epoch)
    small_steps(s)
    vals = [r0, d0, 100., pm[0], pm[1], par]
    check_model(s, img, vals, epoch, mjd, masks(mask, img), 'source')


def case_frozen(psf, froz):
    """froz: names frozen, among the four groups and the inner parameters"""
    epoch, mjd = EQUINOX + 40., EQUINOX + 500.
    img = mkimg(psf, mjd)
    s = mksrc()
    small_steps(s)
    vals = [10., 20., 100., 1e-4, -5e-5, .3]
    names = list(NAMES)
    for f in froz:
        if '.' in f:
            g, n = f.split('.')
            getattr(s, g).freezeParam(n if g != 'brightness' else 0)
            names = [x for x in names if x != f]
        else:
            s.freezeParam(f)
            names = [x for x in names if not x.startswith(f + '.')]
    check_model(s, img, vals, epoch, mjd, None, 'frozen %s' % (froz,), names=names)
    s.thawAllRecursive()
    same(len(s.getParams()), 6, 'thawed again')


OPS = ['epoch', 'time', 'pos', 'pm', 'parallax', 'setParams', 'copy', 'pickle', 'freeze', 'thaw', 'flux']


def case_history(psf, hist):
    st = dict(vals=[10., 20., 100., 1e-4, -5e-5, .3], epoch=EQUINOX + 40., mjd=EQUINOX + 500.)
    img = mkimg(psf, st['mjd'])
    s = mksrc()
    small_steps(s)
    olds = []
    frozen = False
    for i, op in enumerate(hist):
        v = st['vals'] = list(st['vals'])
        if op == 'epoch':
            st['epoch'] += 30. * (i + 1)
            s.epoch = T(st['epoch'])
        elif op == 'time':
            st['mjd'] += 60. * (i + 1)
            img.time = T(st['mjd'])
        elif op == 'pos':
            v[0] += 2.5 * SC
            s.pos.ra = v[0]
        elif op == 'pm':
            v[4] += 3e-5
            s.pm.pmdec = v[4]
        elif op == 'parallax':
            v[5] *= -1.5
            s.parallax.setValue(v[5])
        elif op == 'flux':
            v[2] *= .5
            s.brightness.setParams([v[2]])
        elif op == 'setParams':
            v[1] -= .7 * SC
            v[2] += 20.
            v[3] += 1e-5
            v[5] += .1
            if frozen:
                v[3], v[4] = st['pm']
                s.setParams([v[0], v[1], v[2], v[5]])
            else:
                s.setParams(v)
        elif op in ('copy', 'pickle'):
            old = s
            s = s.copy() if op == 'copy' else pickle.loads(pickle.dumps(s))
            same(s.hashkey(), old.hashkey(), 'hash key of a ' + op)
            small_steps(s)
            old.pos.ra += 1.
            old.pm.pmra = 3.
            old.parallax.setValue(9.)
            old.brightness.setParams([1.])
            old.epoch = T(1.)
        elif op == 'freeze' and not frozen:
            s.freezeParam('pm')
            frozen = True
        elif op == 'thaw' and frozen:
            s.thawParam('pm')
            frozen = False
        st['pm'] = (v[3], v[4])
        names = [n for n in NAMES if not (frozen and n.startswith('pm.'))]
        check_model(s, img, st['vals'], st['epoch'], st['mjd'], None, 'after %s' % (hist[:i + 1],), names=names, derivs=(i == len(hist) - 1))


# ------------------------------------------------------------------ brightnesses, cut-offs, priors
def case_bright(kind, psf, froz):
    """derivatives with respect to any kind of brightness"""
    import tractor as TR
    from tractor.motion import MovingPointSource, PMRaDec
    mjd = EQUINOX + 500.
    img = mkimg(psf, mjd)
    br = dict(Mag=lambda: TR.Mag(20.), Mags=lambda: TR.Mags(g=20., r=19.), NanoMaggies=lambda: TR.NanoMaggies(g=30., r=50.),
              Fluxes=lambda: TR.Fluxes(g=30., r=50.))[kind]()
    img.photocal = {'Mag': TR.MagsPhotoCal('r', 25.), 'Mags': TR.MagsPhotoCal('r', 25.)}.get(kind) or TR.LinearPhotoCal(3., band='r')
    if kind == 'Mag':
        class Cal(TR.NullPhotoCal):
            def brightnessToCounts(self, b):
                return 10.**(-.4 * (b.getParams()[0] if b.numberOfParams() else b.getAllParams()[0] if hasattr(b, 'getAllParams') else b.val) + 10.)
        img.photocal = Cal()
    s = MovingPointSource(TR.RaDecPos(10., 20.), br, PMRaDec(1e-4, -5e-5), .3, epoch=T(EQUINOX + 40.))
    small_steps(s)
    for f in froz:
        s.freezeParam(f)
    nb0 = {'pos': 2, 'pm': 2, 'parallax': 1}
    before = 0 if 'pos' in froz else 2
    nb = br.numberOfParams()
    p0 = list(s.getParams())
    D = s.getParamDerivatives(img)
    same(len(D), nb + sum(n for g, n in nb0.items() if g not in froz), 'number of derivatives')
    same(list(s.getParams()), p0, 'parameters after differentiating')
    m0 = paint(s.getModelPatch(img), img)
    expect(m0.max() > 0, 'the source is not in the image')
    for j in range(nb):
        h = br.getStepSizes(img)[j] * 1e-2
        v = br.getParams()[j]
        br.setParam(j, v + h)
        a = paint(s.getModelPatch(img), img)
        br.setParam(j, v - h)
        b = paint(s.getModelPatch(img), img)
        br.setParam(j, v)
        w = (a - b) / (2. * h)
        # one-sided step: tenth-magnitude steps are 5% off
        close_img(paint(D[before + j], img), w, .08 * np.abs(w).max() + 1e-4 * m0.max() * 1e-2, 'derivative with respect to %s' % br.getParamNames()[j])


def case_minsb(psf, mjd, minsb, off):
    """cut off at a surface brightness, a moving source is what a fixed one there is"""
    epoch = EQUINOX + 40.
    vals = [10. + off[0] * SC, 20. + off[1] * SC, 100., 1e-4, -5e-5, .3]
    img = mkimg(psf, mjd)
    s = mksrc(*vals[:2], pm=vals[3:5], par=vals[5], epoch=epoch)
    want = still(vals, img, epoch, mjd, minsb=minsb)
    got = paint(s.getModelPatch(img, minsb=minsb), img)
    close_img(got, want, 2e-5 * vals[2], 'model cut off at %g' % minsb)
    expect(np.all((got == 0) == (want == 0)), 'model cut off at %g covers %d pixels, a fixed source %d' % (minsb, (got != 0).sum(), (want != 0).sum()))


def case_prior(p):
    from tractor.motion import ParallaxWithPrior, PMRaDec
    q = ParallaxWithPrior(p)
    expect(bool(q.isLegal()) == (p >= 0), 'parallax %g is called %s' % (p, 'legal' if q.isLegal() else 'illegal'))
    if p > 0:
        close(q.getLogPrior(), -4. * np.log(p), 1e-12, 1e-12, 'Lutz-Kelker prior of %g' % p)
    elif p < 0:
        expect(q.getLogPrior() == -np.inf, 'prior of parallax %g is %r' % (p, q.getLogPrior()))
    same(float(q.getValue()), p, 'value')
    m = PMRaDec(p, -2. * p + 1e-3)
    close(m.getRaArcsecPerYear(), p * 3600., 1e-12, 0, 'RA motion in arcsec')
    close(m.getDecArcsecPerYear(), (-2. * p + 1e-3) * 3600., 1e-12, 0, 'Dec motion in arcsec')


# ------------------------------------------------------------------ fits
def case_fit(opt, thawed, times, psf, off):
    import tractor as TR
    from mc.p11 import optimizers
    epoch = EQUINOX + 40.
    truth = [10., 20., 200., 1e-4, -5e-5, .4]
    imgs = [mkimg(psf, epoch + t, rot=.3 * i, cal=1. + .5 * i) for i, t in enumerate(times)]
    for im in imgs:
        im.data = still(truth, im, epoch, im.getTime().toMjd()).astype(np.float32)
        im.setInvvar(np.ones(im.shape, np.float32) * 100.)
    s = mksrc(*truth[:2], pm=truth[3:5], par=truth[5], epoch=epoch, flux=truth[2])
    start = list(truth)
    kick = [.8 * SC * off, -.6 * SC * off, 30. * off, 4e-5 * off, 3e-5 * off, -.15 * off]
    for i, n in enumerate(NAMES):
        if n.split('.')[0] in thawed:
            start[i] += kick[i]
    s.setParams(start)
    s.pos.setStepSizes([1e-6] * 2)
    for g in ('pos', 'brightness', 'pm', 'parallax'):
        if g not in thawed:
            s.freezeParam(g)
    tr = TR.Tractor(imgs, [s], optimizer=dict(optimizers())[opt]())
    tr.freezeParam('images')
    l0 = tr.getLogProb()
    for step in range(40):
        r = tr.optimize(shared_params=False)
        if r[0] < 1e-6:
            break
    got = list(s.getAllParams())
    tol = [.01 * SC, .01 * SC, .05, 2e-6, 2e-6, .01]
    for g, w, t, n in zip(got, truth, tol, NAMES):
        if n.split('.')[0] not in thawed:
            same(g, w, 'frozen ' + n)
        expect(abs(g - w) < t, 'fitted %s = %.9g, truth %.9g (started at %.9g)' % (n, g, w, start[NAMES.index(n)]))
    expect(tr.getLogProb() > l0, 'log-probability fell')


def run(ck):
    big = ck.thorough
    th = [('position', (ra, dec, pm, par, epoch)) for ra in (0., 359.9999, 123.4, 270.) for dec in (0., 45., -80., 89.)
          for pm in ((0., 0.), (1e-4, 0.), (0., -1e-4), (3e-4, 2e-4)) for par in (0., .3, -.2, 5.) for epoch in (EQUINOX, 55197., 40000.)]

    def doit(sub, it):
        kind, a = it
        fn = dict(position=case_position, time=case_time, arith=case_arith, inplace=case_inplace, render=case_render, frozen=case_frozen, history=case_history, fit=case_fit, bright=case_bright, minsb=case_minsb, prior=case_prior)[kind]
        sub.step(9 if kind == 'position' else len(a[-1]) if kind == 'history' else 1)
        sub.case('%s %s' % (kind, ' '.join(str(x).replace("'", '') for x in a)), fn, *a)

    def go(items):
        n = max(1, min(20, len(items) // 24))
        ck.shards([items[i:i + n] for i in range(0, len(items), n)], lambda sub, its: [doit(sub, it) for it in its])

    ck.section('positions', '%d sources (position x proper motion x parallax x epoch) at 9 times, twice: vector astrometry' % len(th))
    go(th)

    it = [('time', (m,)) for m in (40000., 51544.5, EQUINOX, 53500.25, 58000.125, 60000.)]
    it += [('arith', (k, e, f, x)) for k in ('RaDecPos', 'PMRaDec', 'Parallax', 'TAITime') for e in EXPRS for f in ((0, 1, 2, 3) if k in ('RaDecPos', 'PMRaDec') else (0,)) for x in (2., -.5, 3)]
    it += [('inplace', (k, op, o, x)) for k in ('RaDecPos', 'PMRaDec', 'Parallax', 'TAITime') for op in INPLACE for o in ('b', 'x') for x in (2., -.5, 3)]
    ck.section('times and arithmetic', '%d: times; expressions x operands x frozen states of positions, motions and times' % len(it))
    go(it)

    e = EQUINOX + 40.
    it = [('render', (p, e + t, dec, rot, m, pm, par, off)) for p in psfs() for t in ((0., 100., 1500., -400.) if big else (0., 700.))
          for dec, rot in (((0., 0.), (60., .7), (-80., 0.)) if big else ((0., .7), (60., 0.)))
          for m in ('none', 'box', 'mask', 'off') for pm, par in (((1e-4, -5e-5), .3), ((0., 0.), 0.), ((-5e-5, 0.), -1.))
          for off in (((0., 0.), (3.25, -2.5), (18.4, 3.)) if big else ((0., 0.), (3.25, -2.5)))]
    ck.section('models', '%d: PSF x time x declination and rotation x mask x motion x offset: image and all six derivatives' % len(it))
    go(it)

    groups = ['pos', 'brightness', 'pm', 'parallax', 'pos.ra', 'pos.dec', 'pm.pmra', 'pm.pmdec']
    if not big:
        subs = [s for k in range(0, 4) for s in itertools.combinations(groups, k)] + [tuple(groups[:4])]
    else:
        subs = [s for k in range(0, 9) for s in itertools.combinations(groups, k)]
    it = [('frozen', (p, s)) for p in ('circ', 'pix') for s in subs]
    ck.section('frozen states', '%d: subsets of the frozen groups and inner parameters' % len(it))
    go(it)

    it = [('history', (p, h)) for p in ('circ',) + (('hybrid',) if big else ()) for L in range(1, 5 if big else 4) for h in itertools.product(OPS, repeat=L)]
    if not big:
        it += [('history', ('hybrid', h)) for h in itertools.product(OPS, repeat=1)]
    ck.section('histories', '%d: all sequences of up to %d of %s: model after each, derivatives at the end' % (len(it), 4 if big else 3, ', '.join(OPS)))
    go(it)

    it = [('bright', (k, p, f)) for k in ('Mag', 'Mags', 'NanoMaggies', 'Fluxes') for p in psfs() for f in ((), ('pos',), ('pm',), ('pos', 'parallax'))]
    it += [('minsb', (p, e + t, m, off)) for p in psfs() for t in (0., 100., 700.) for m in (.01, .1, 1., 5., 1000.) for off in ((0., 0.), (3.25, -2.5))]
    it += [('prior', (p,)) for p in (-2., -.1, -1e-6, 0., 1e-6, .01, .5, 1., 3.)]
    ck.section('brightnesses, cut-offs, priors', '%d: derivatives x kinds of brightness; PSFs x times x surface-brightness cuts; parallaxes with prior' % len(it))
    go(it)

    G = ['pos', 'brightness', 'pm', 'parallax']
    from mc.p11 import optimizers
    subs = [s for k in range(1, 5) for s in itertools.combinations(G, k)]
    it = [('fit', (o, s, times, p, off)) for o, _ in optimizers() if o != 'smarter' for s in subs for times in ((0., 100., 500., 900., 1300.), (-700., -300., 10., 95., 800., 1200.))
          for p in (('circ', 'pix') if big else ('circ',)) for off in ((1., -1.) if big else (1.,))]
    ck.section('fits', '%d: optimiser x thawed subset x sets of epochs: the noiseless truth is recovered' % len(it))
    go(it)
