"""
P22: what is saved is what is read back.  Every object in every frozen state is
pickled and restored: same values, flags and behaviour, and it stays equivalent
under every later edit; whole scenes (masks, options, optimiser) restore at every
point of a history of edits; calibrations, images and skies survive FITS.
All files go to a scratch directory.
"""
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
from mc import zoo as Z
from mc import scene
from mc.core import expect, fail, close, close_img, same, texture
from mc.p03 import freeze_patterns, apply_pattern, snapshot, compare, mutations


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vp22.')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ pickling of every object
def pickles(sub, item):
    limit = 6 if sub.thorough else 3
    pats = freeze_patterns(item.make, limit)
    protos = (0, 2, 4) if sub.thorough else (2, 4)
    for desc, pat in pats:
        for proto in protos:
            def one():
                o = item.make()
                apply_pattern(o, pat)
                s0 = snapshot(item, o)
                c = pickle.loads(pickle.dumps(o, proto))
                sub.step(2)
                expect(type(c) is type(o), 'restored as %s' % type(c).__name__)
                compare(item, s0, snapshot(item, c), 'restored')
                compare(item, s0, snapshot(item, o), 'original afterwards')
                cc = pickle.loads(pickle.dumps(c, proto))
                compare(item, s0, snapshot(item, cc), 'restored twice')
                close(list(c.getStepSizes()), list(o.getStepSizes()), 1e-12, 1e-15, 'step sizes')
                same(list(c.getLowerBounds()), list(o.getLowerBounds()), 'lower bounds')
                same(list(c.getUpperBounds()), list(o.getUpperBounds()), 'upper bounds')
                same(c.getLogPrior(), o.getLogPrior(), 'log prior')
                sub.state((item.name, desc))
            sub.case('pickle %s frozen %s proto %d' % (item.name, desc, proto), one)
    # the restored object reacts to edits like the original and does not share anything with it
    for desc, pat in pats[:1] + pats[-2:]:
        o = item.make()
        apply_pattern(o, pat)
        for k, (nm, _) in enumerate(mutations(item, o)):
            def two():
                o = item.make()
                apply_pattern(o, pat)
                c = pickle.loads(pickle.dumps(o))
                s0 = snapshot(item, o)
                mutations(item, c)[k][1](c)
                compare(item, s0, snapshot(item, o), 'original after editing the restored one')
                mutations(item, o)[k][1](o)
                compare(item, snapshot(item, o), snapshot(item, c), 'restored object after the same edit')
                sub.step(2)
            sub.case('edit %s frozen %s: %s' % (item.name, desc, nm), two)


# ------------------------------------------------------------------ whole scenes
def build():
    import tractor as T
    from tractor.galaxy import ExpGalaxy
    from tractor.ellipses import EllipseE
    from tractor.lsqr_optimizer import LsqrOptimizer
    ims = []
    for i in range(2):
        ims.append(T.Image(data=10. * texture((14, 15), 3 + i), inverr=(.5 + .1 * np.abs(texture((14, 15), 5 + i))),
                           psf=T.NCircularGaussianPSF([1.2 + .3 * i], [1.]) if i == 0 else T.PixelizedPSF(Z.psf_stamp()),
                           wcs=T.NullWCS(dx=.2 * i), sky=T.ConstantSky(1. + i), photocal=T.LinearPhotoCal(1. + i), name='im%d' % i))
    cat = [T.PointSource(T.PixPos(5.2, 6.1), T.Flux(50.)), ExpGalaxy(T.PixPos(8.7, 7.), T.Flux(80.), EllipseE(1.8, .2, -.1)),
           T.PointSource(T.PixPos(11., 3.), T.Flux(20.))]
    return T.Tractor(ims, cat)


def observe(tr):
    d = dict(params=list(tr.getParams()), names=list(tr.getParamNames()), lp=tr.getLogProb(), prior=tr.getLogPrior(), lnl=tr.getLogLikelihood(),
             n=len(tr.getCatalog()), opt=type(tr.optimizer).__name__, modtype=np.dtype(tr.modtype).name, imnames=[im.name for im in tr.getImages()])
    arrs = [tr.getModelImage(i) for i in range(tr.getNImages())] + list(tr.getChiImages())
    for i, img in enumerate(tr.getImages()):
        for s in tr.getCatalog():
            p = tr.getModelPatch(img, s)
            if p is None or p.patch is None:
                arrs.append(np.zeros((1, 1)))
            else:
                arrs.append(np.append(p.patch.ravel(), [p.x0, p.y0]))
    alld = tr.getDerivs()
    d['nd'] = [len(x) for x in alld]
    for x in alld:
        for p, im in x:
            arrs.append(p.patch.ravel())
    return d, arrs


def eq(a, b, what):
    for k in a[0]:
        if k in ('lp', 'prior', 'lnl', 'params'):
            close(b[0][k], a[0][k], 1e-9, 1e-12, '%s: %s' % (what, k))
        else:
            same(b[0][k], a[0][k], '%s: %s' % (what, k))
    same(len(b[1]), len(a[1]), what + ': number of pictures')
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        same(np.shape(y), np.shape(x), '%s: shape of picture %d' % (what, i))
        close(np.ravel(y), np.ravel(x), 1e-6, 1e-6, '%s: picture %d' % (what, i))


def scene_ops():
    from tractor.patch import ModelMask
    from tractor.dense_optimizer import ConstrainedDenseOptimizer

    def masks(tr):
        tr.setModelMasks([dict((s, ModelMask(2, 2, 8, 7)) for s in tr.getCatalog()) for _ in range(2)])

    def some(tr):
        tr.setModelMasks([{tr.getCatalog()[0]: ModelMask(3, 4, np.ones((5, 5), bool))}, {}], assumeMasks=False)

    def strict(tr):
        tr.setModelMasks([{tr.getCatalog()[0]: ModelMask(3, 4, 5, 5)}, {}])

    def unmask(tr):
        tr.setModelMasks(None)

    def fz(tr):
        tr.getCatalog()[0].freezeAllBut('brightness')

    def fzcat(tr):
        tr.freezeParam('catalog')

    def fzim(tr):
        tr.freezeParam('images')

    def fzsrc(tr):
        tr.getCatalog().freezeParam(1)

    def thaw(tr):
        tr.thawAllRecursive()

    def prior(tr):
        tr.getCatalog()[0].brightness.val += 1.
        tr.getCatalog()[1].shape.addGaussianPrior('re', 2., .3)

    def opt(tr):
        tr.optimizer = ConstrainedDenseOptimizer()

    def dt(tr):
        tr.modtype = np.float64

    def kw(tr):
        tr.model_kwargs = dict(minsb=.5)

    def rm(tr):
        tr.removeSource(tr.getCatalog()[0])

    def share(tr):
        tr.getCatalog()[-1].pos = tr.getCatalog()[0].pos

    def mv(tr):
        tr.getCatalog()[-1].pos.x += .5
    L = [masks, some, strict, unmask, fz, fzcat, fzim, fzsrc, thaw, prior, opt, dt, kw, share, mv]
    return [(f.__name__, f) for f in L]


def scenes(sub, first, depth, full):
    O = scene_ops()
    core = list(range(len(O))) if full else [0, 1, 2, 4, 5, 7, 9, 11, 12, 13, 14]
    todo = [[first]]
    for d in range(depth - 1):
        todo += [p + [k] for p in todo if len(p) == d + 1 for k in core]
    for path in todo:
        names = [O[k][0] for k in path]

        def one():
            tr = build()
            for k in path[:-1]:
                O[k][1](tr)
            # saved before the last step and after it
            t0 = pickle.loads(pickle.dumps(tr))
            O[path[-1]][1](tr)
            want = observe(tr)
            eq(want, observe(pickle.loads(pickle.dumps(tr))), 'restored')
            O[path[-1]][1](t0)
            eq(want, observe(t0), 'restored before the last step')
            eq(want, observe(tr), 'the original afterwards')
            sub.step(2 + len(path))
            sub.state(('scene',) + tuple(names))
        sub.case('scene ' + '; '.join(names), one)


def fit_after(sub, path):
    """a restored scene optimises to the same place"""
    O = dict(scene_ops())
    tr = build()
    tr.freezeParam('images')
    for s in tr.getCatalog():
        s.freezeAllBut('brightness')
    for nm in path:
        O[nm](tr)
    t2 = pickle.loads(pickle.dumps(tr))
    kw = dict(shared_params=False)
    a, b = tr.optimize(**kw), t2.optimize(**kw)
    close(list(t2.getParams()), list(tr.getParams()), 1e-6, 1e-6, 'parameters after the fit')
    close(b[0], a[0], 1e-6, 1e-6, 'gain')


def image_pickle(kind, state):
    """Images with unusual members"""
    import tractor as T
    from mc.p07 import psfs
    from tractor.shifted import ShiftedPsf, ShiftedWcs, ScaledPhotoCal
    from mc.p19 import Tref, mkcd, tanobj
    from tractor.wcs import TanWcs
    t = Tref((10., 20.), (8., 7.), mkcd(1., 20., 1))
    psf = dict(psfs())[kind]()
    wcs = dict(tan=lambda: TanWcs(tanobj(t)), shifted=lambda: ShiftedWcs(TanWcs(tanobj(t)), 1, -1),
               off=lambda: TanWcs(tanobj(t)).shifted(1, -1))[state]()
    img = T.Image(data=10. * texture((14, 15), 3), inverr=(.5 + .1 * np.abs(texture((14, 15), 5))), psf=psf, wcs=wcs,
                  sky=T.ConstantSky(1.), photocal=ScaledPhotoCal(T.LinearPhotoCal(2.), 3.) if state == 'shifted' else T.LinearPhotoCal(6.), name='x')
    c = wcs.pixelToPosition(7., 6.5)
    tr = T.Tractor([img], [T.PointSource(T.RaDecPos(c.ra, c.dec), T.Flux(40.))])
    t2 = pickle.loads(pickle.dumps(tr))
    close_img(t2.getModelImage(0), tr.getModelImage(0), 1e-6, 'model')
    close(t2.getLogProb(), tr.getLogProb(), 1e-9, 1e-9, 'log-probability')
    for q in (tr, t2):
        q.getCatalog()[0].pos.ra += 1e-4
    close_img(t2.getModelImage(0), tr.getModelImage(0), 1e-6, 'model after moving the source')


# ------------------------------------------------------------------ FITS
def header(cls, arg, pat):
    """toFitsHeader / fromFitsHeader, through a file"""
    import fitsio
    import tractor as T
    o = calibs()[arg]()
    if pat:
        for i in pat:
            o.freezeParam(i)
    with Scratch() as d:
        h = fitsio.FITSHDR()
        o.toFitsHeader(h, prefix='TST_')
        fn = os.path.join(d, 'h.fits')
        fitsio.write(fn, None, header=h, clobber=True)
        hdr = fitsio.read_header(fn)
        c = type(o).fromFitsHeader(hdr, prefix='TST_')
    expect(type(c) is type(o), 'class')
    close(list(c.getAllParams()), list(o.getAllParams()), 1e-9, 1e-12, 'parameters')
    beh(o, c)


def beh(o, c):
    import tractor as T
    if hasattr(o, 'getPointSourcePatch'):
        for x, y in ((5., 6.), (5.3, 6.6)):
            a, b = o.getPointSourcePatch(x, y, radius=6), c.getPointSourcePatch(x, y, radius=6)
            same((b.x0, b.y0, b.shape), (a.x0, a.y0, a.shape), 'star extent')
            close_img(b.patch, a.patch, 1e-6, 'star')
    if hasattr(o, 'brightnessToCounts'):
        br = dict(NullPhotoCal=lambda: T.Flux(7.), MagsPhotoCal=lambda: T.Mags(g=20., r=21.)).get(type(o).__name__)
        if br is None:
            br = (lambda: T.NanoMaggies(g=3., r=4.)) if getattr(o, 'band', None) else (lambda: T.Flux(7.))
        close(c.brightnessToCounts(br()), o.brightnessToCounts(br()), 1e-9, 0, 'counts')
    if hasattr(o, 'positionToPixel'):
        close(list(c.positionToPixel(T.PixPos(3., 4.))), list(o.positionToPixel(T.PixPos(3., 4.))), 1e-12, 1e-12, 'pixel')
        close(c.pixscale_at(0, 0), o.pixscale_at(0, 0), 1e-9, 0, 'pixel scale')
        close_img(np.array(c.cdAtPixel(0, 0)), np.array(o.cdAtPixel(0, 0)), 1e-12, 'CD')
    if hasattr(o, 'addTo'):
        a, b = np.zeros((5, 6)), np.zeros((5, 6))
        o.addTo(a)
        c.addTo(b)
        close_img(b, a, 1e-6, 'sky')


def calibs():
    import tractor as T
    gm = lambda k: T.GaussianMixturePSF(*[a[:k].copy() for a in scene.PSF2])
    five = lambda: T.GaussianMixturePSF(np.array([.4, .3, .15, .1, .05]), np.array([[0., 0.], [.1, -.1], [.2, .3], [-.2, 0.], [.4, .1]]),
                                        np.array([[[1. + k, .1 * k], [.1 * k, 1.5 + .5 * k]] for k in range(5)]))
    return {'psf1': lambda: gm(1), 'psf2': lambda: gm(2), 'psf5': five, 'null': lambda: T.NullWCS(), 'nullps': lambda: T.NullWCS(pixscale=.3, dx=2., dy=-1.5),
            'sky': lambda: T.ConstantSky(-2.5), 'sky0': lambda: T.ConstantSky(0.), 'nullsky': lambda: T.NullSky(), 'nullpc': lambda: T.NullPhotoCal(),
            'lin': lambda: T.LinearPhotoCal(3.5), 'linband': lambda: T.LinearPhotoCal(.25, band='r'), 'mags': lambda: T.MagsPhotoCal('g', 24.7),
            'fluxes': lambda: T.FluxesPhotoCal('r')}


def image_fits(psf, wcs, sky, pc, prefix, pat):
    import fitsio
    import tractor as T
    C = calibs()
    ie = .5 + .1 * np.abs(texture((7, 9), 6))
    ie[2, 3] = 0.
    img = T.Image(data=(10. * texture((7, 9), 3)).astype(np.float32), inverr=ie.astype(np.float32), psf=C[psf](), wcs=C[wcs](), sky=C[sky](), photocal=C[pc]())
    for i in pat:
        img.psf.freezeParam(i)
    before = list(img.getParams())
    with Scratch() as d:
        fn = os.path.join(d, 'im.fits')
        f = fitsio.FITS(fn, 'rw')
        img.toFits(f, prefix=prefix)
        f.close()
        f = fitsio.FITS(fn)
        c = T.Image.readFromFits(f, prefix=prefix)
        f.close()
    same(list(img.getParams()), before, 'original parameters')
    close_img(c.getImage(), img.getImage(), 1e-6, 'pixels')
    close_img(c.getInvvar(), img.getInvvar(), 1e-6, 'inverse variance')
    close_img(c.getInvError(), img.getInvError(), 1e-5, 'inverse error')
    for a, b in ((img.psf, c.psf), (img.wcs, c.wcs), (img.sky, c.sky), (img.photocal, c.photocal)):
        expect(type(a) is type(b), 'class %s' % type(b).__name__)
        beh(a, b)
    br = {'mags': lambda: T.Mags(g=20., r=21.), 'linband': lambda: T.NanoMaggies(g=30., r=40.), 'fluxes': lambda: T.Fluxes(g=30., r=40.)}.get(pc, lambda: T.Flux(30.))
    ms = [T.Tractor([x], [T.PointSource(T.PixPos(3.2, 2.9), br())]) for x in (img, c)]
    close_img(ms[1].getModelImage(0), ms[0].getModelImage(0), 1e-5, 'model image')
    close(ms[1].getLogLikelihood(), ms[0].getLogLikelihood(), 1e-4, 1e-4, 'log-likelihood')


def sky_table(kind, shift, rows):
    from mc.p21 import mksky
    from tractor.splinesky import SplineSky
    from tractor.sky import ConstantSky
    from astrometry.util.fits import fits_table, merge_tables
    import fitsio
    if kind == 'frac':
        s = SplineSky(np.linspace(-2., 14.5, 6), np.linspace(-1.2, 12.7, 5), 3. + texture((5, 6), 2))
    elif kind == 'small':
        s = SplineSky(np.linspace(0., 1., 4) * 13., np.linspace(0., 1., 4) * 9. - .5, texture((4, 4), 2), order=3)
    else:
        s, _ = mksky(kind)
    if shift:
        s.shift(*shift)
    want = np.zeros((11, 13))
    s.addTo(want)
    with Scratch() as d:
        fn = os.path.join(d, 'sky.fits')
        if kind in ('const', 'zero'):
            T = s.to_fits_table()
            T.writeto(fn)
            c = ConstantSky.from_fits_row(fits_table(fn)[0])
            close(float(c.getValue()), float(s.getValue()), 1e-12, 0, 'sky level from the table')
            for v in (1. / 3, -12345.678901234, 1e-9):
                t = ConstantSky(v)
                t.to_fits_table().writeto(os.path.join(d, 'sky3.fits'))
                close(float(ConstantSky.from_fits_row(fits_table(os.path.join(d, 'sky3.fits'))[0]).getValue()), v, 1e-12, 0, 'sky level from the table')
            s.write_fits(os.path.join(d, 'sky2.fits'))
            hdr = fitsio.read_header(os.path.join(d, 'sky2.fits'))
            same(hdr['SKY'].strip(), 'tractor.sky.ConstantSky', 'class in the header')
            c2 = ConstantSky.fromFitsHeader(hdr, prefix='SKY_')
            got = np.zeros((11, 13))
            c2.addTo(got)
            close_img(got, want, 1e-6, 'sky from the header')
        else:
            if rows == 1:
                s.write_fits(fn)
                hdr = fitsio.read_header(fn)
                same(hdr['SKY'].strip(), 'tractor.splinesky.SplineSky', 'class in the header')
                c = SplineSky.from_fits(fn, hdr)
            else:
                # several skies in a file
                other = s.copy()
                other.scale(3.)
                Ts = [other.to_fits_table() for _ in range(rows)]
                Ts[rows - 1] = s.to_fits_table()
                merge_tables(Ts).writeto(fn)
                c = SplineSky.from_fits(fn, None, row=rows - 1)
                c0 = SplineSky.from_fits(fn, None, row=0)
                got = np.zeros((11, 13))
                c0.addTo(got)
                close_img(got, 3. * want, 3e-5, 'sky in row 0')
            same(c.order, s.order, 'order')
    got = np.zeros((11, 13))
    c.addTo(got)
    close_img(got, want, 1e-5, 'sky')
    expect(type(c) is type(s), 'class')


def std_wcs(kind, crval, off):
    """the standard header describes the WCS of the (sub)image"""
    import fitsio
    from mc.p19 import Tref, mkcd, tanobj
    from tractor.wcs import TanWcs, ConstantFitsWcs
    from astrometry.util.util import Tan
    t = Tref(crval, (20., 17.), mkcd(.5, 25., 1))
    w = (TanWcs if kind == 'TanWcs' else ConstantFitsWcs)(tanobj(t))
    if off != (0, 0):
        w = w.shifted(*off)
    t.off = off
    h = fitsio.FITSHDR()
    w.toStandardFitsHeader(h)
    o = tanobj(t)
    for key, n, k in (('IMAGEW', o.get_width(), off[0]), ('IMAGEH', o.get_height(), off[1])):
        if key in h:
            close(float(h[key]), n - k, 1e-9, 0, '%s of the standard header' % key)
    with Scratch() as d:
        fn = os.path.join(d, 'w.fits')
        fitsio.write(fn, np.zeros((4, 4), np.float32), header=h, clobber=True)
        b = Tan(fn, 0)
    for x, y in ((0., 0.), (10.5, 3.), (30., 28.)):
        ra, dec = t.pix2sky(x, y)
        r2, d2 = b.pixelxy2radec(x + 1., y + 1.)
        dr = ((r2 - ra + 180.) % 360. - 180.)
        expect(abs(dr) < 1e-6 and abs(d2 - dec) < 1e-6, 'header WCS puts pixel %g,%g at %r,%r, not %r,%r' % (x, y, r2, d2, ra, dec))


def std_image(zp, sky):
    import tractor as T
    img = T.Image(data=np.zeros((4, 5), np.float32), inverr=np.ones((4, 5), np.float32), psf=T.NCircularGaussianPSF([1.], [1.]), wcs=T.NullWCS(),
                  sky=T.ConstantSky(sky), photocal=T.LinearPhotoCal(T.NanoMaggies.zeropointToScale(zp)))
    h = img.getStandardFitsHeader()
    close(h['SKY'], sky, 1e-12, 1e-12, 'SKY')
    close(h['MAGZP'], zp, 1e-9, 1e-9, 'MAGZP')


def run(ck):
    th = ck.thorough
    items = Z.zoo()
    ck.section('pickle objects', '%d kinds of object x frozen patterns x protocols; then every edit of the restored object' % len(items))
    ck.shards(items, pickles)
    n = len(scene_ops())
    ck.section('pickle scenes', 'all sequences of <=%d of %d edits (masks, freezing, priors, options), saved before and after the last' % (3 if th else 2, n))
    ck.shards(list(range(n)), lambda sub, f: scenes(sub, f, 3 if th else 2, not th))
    for p in [(), ('masks',), ('some',), ('opt',), ('opt', 'masks'), ('dt',), ('fzsrc',), ('prior', 'masks')]:
        ck.case('fit after ' + ' '.join(p), fit_after, ck, p)
    for k in ['gmix', 'ncirc', 'ellmix', 'pix', 'pixover', 'hybrid', 'psfex']:
        for s in ('tan', 'shifted', 'off'):
            ck.case('image %s %s' % (k, s), image_pickle, k, s)
    ck.section('FITS headers', 'calibration classes x frozen patterns')
    for k in calibs():
        o = calibs()[k]()
        pats = [()]
        if hasattr(o, 'liquid') and len(o.liquid) > 0:
            m = len(o.liquid)
            pats += [(i,) for i in range(m)] + [tuple(range(m)), (0, m - 1)]
            if th and m <= 6:
                pats = [c for j in range(m + 1) for c in itertools.combinations(range(m), j)]
        for p in pats:
            ck.case('header %s frozen %s' % (k, p), header, None, k, p)
    ck.section('FITS images', 'PSF x WCS x sky x calibration x prefixes x frozen')
    for a, b, c, d in itertools.product(['psf1', 'psf2', 'psf5'], ['null', 'nullps'], ['sky', 'sky0', 'nullsky'], ['nullpc', 'lin', 'linband', 'mags', 'fluxes']):
        ck.case('fits %s %s %s %s' % (a, b, c, d), image_fits, a, b, c, d, '', ())
    for pre, p in itertools.product(['', 'T_', 'X'], [(0,), (1, 2), tuple(range(6))]):
        ck.case('fits prefix %r frozen %s' % (pre, p), image_fits, 'psf1', 'nullps', 'sky', 'lin', pre, p)
    ck.section('sky tables', 'kinds x shifts x rows')
    for k, s, r in itertools.product(['const', 'zero', '4x5-3', '6x4-1', '5x5-2', 'frac', 'small'], [None, (2, -1), (1.5, .25)], [1, 2, 3]):
        ck.case('sky table %s %s %d' % (k, s, r), sky_table, k, s, r)
    ck.section('standard headers', 'WCS x field x offset; zeropoint x sky')
    for k, c, o in itertools.product(['TanWcs', 'ConstantFitsWcs'], [(10., 20.), (.001, -50.), (200., 80.)], [(0, 0), (3, 5), (7, 0), (0, 2)]):
        ck.case('std %s %s %s' % (k, c, o), std_wcs, k, c, o)
    for z, s in itertools.product([20., 22.5, 27.3], [-1., 0., 5.5]):
        ck.case('std image %g %g' % (z, s), std_image, z, s)
    ck.assumptions.append('FITS: the classes whose headers can be read back are GaussianMixturePSF, NullWCS, the skies and the photometric calibrations; others refuse loudly')
    ck.assumptions.append('pickling of WcslibWcs is not covered (the astrometry library cannot write its header)')
