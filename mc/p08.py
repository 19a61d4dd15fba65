"""
P08: a subimage is the parent image restricted to a rectangle.

For every WCS kind x PSF kind x sky kind and every rectangle of a grid of
corners: pixels, errors, calibrations and model images of the subimage are the
corresponding part of the parent's; subimages of subimages are the direct
subimage; the parent is untouched and the pixel arrays are independent.
"""
import itertools
import numpy as np
from mc import scene
from mc.p07 import psfs, FTOL, MOG
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import dense, tan

SHAPE = (18, 20)


def varying_psf():
    """A spatially varying Gaussian-mixture PSF (spline in each parameter)."""
    from tractor.psfex import VaryingGaussianPSF
    from tractor import NCircularGaussianPSF

    class TwoGauss(NCircularGaussianPSF):
        def __init__(self, s1, s2, w):
            super(TwoGauss, self).__init__([s1, s2], [w, 1. - w])
    psf = VaryingGaussianPSF(20, 18, nx=5, ny=5, K=2, psfClass=TwoGauss)
    XX = np.linspace(0, 20, 5)
    YY = np.linspace(0, 18, 5)
    pp = np.zeros((5, 5, 3))
    for i, y in enumerate(YY):
        for j, x in enumerate(XX):
            pp[i, j] = [1. + .02 * x + .01 * y, 2. + .001 * x * y, .8 - .01 * y]
    pp = pp
    psf.fitSavedData(pp, XX, YY)
    return psf


def ALLPSFS():
    return psfs() + [('varying', varying_psf)]


def wcss():
    import tractor as T
    from tractor.basics import NullWCS
    from tractor.wcs import ConstantFitsWcs, TanWcs
    from tractor.shifted import ShiftedWcs
    out = [('null', lambda: NullWCS(dx=.25, dy=-.5, pixscale=1.)),
           ('nullps', lambda: NullWCS(pixscale=.8))]
    for rot in (0., 30.):
        t = lambda rot=rot: tan(w=20, h=18, rot=rot)
        out += [('tan%g' % rot, lambda t=t: TanWcs(t())), ('const%g' % rot, lambda t=t: ConstantFitsWcs(t()))]

    def off():
        w = TanWcs(tan(w=40, h=40, rot=10.))
        w.setX0Y0(9, 12)
        return w
    out.append(('tanoff', off))
    return out


def skies():
    import tractor as T
    from tractor.splinesky import SplineSky
    from tractor.basics import NullSky

    def spl(shift):
        X = np.array([-5., 2., 9., 15., 24.])
        Y = np.array([-4., 1., 8., 14., 23.])
        s = SplineSky(X, Y, 3. + texture((5, 5), 9))
        if shift:
            s.shift(2, -1)
        return s
    return [('none', lambda: NullSky()), ('const', lambda: T.ConstantSky(3.)), ('spline', lambda: spl(False)),
            ('spline2', lambda: spl(True))]


def photocals():
    import tractor as T
    from tractor.shifted import ScaledPhotoCal
    return [('lin', lambda: T.LinearPhotoCal(2.), lambda: T.Flux(100.)),
            ('scaled', lambda: ScaledPhotoCal(T.LinearPhotoCal(4.), .5), lambda: T.Flux(100.)),
            ('mag', lambda: T.MagsPhotoCal('r', 22.5), lambda: T.Mags(r=17.5))]


def make_image(wcs, psf, sky, pc):
    import tractor as T
    im = T.Image(data=texture(SHAPE, 3), inverr=.5 + .5 * np.abs(texture(SHAPE, 4)), psf=psf, wcs=wcs, sky=sky,
                 photocal=pc, name='parent')
    from tractor.tractortime import TAITime
    im.time = TAITime(4.6e9)
    return im


def make_src(kind, wcs, xy, br):
    import tractor as T
    s = scene.build_source(scene.source(kind, shape=(.9, .25, -.15), shape2=(.6, -.2, .1)))
    p = wcs.pixelToPosition(*xy)
    if isinstance(p, tuple):
        p = T.PixPos(*p)
    s.pos = p
    if hasattr(s, 'brightness'):
        s.brightness = br
    else:
        s.brightnessExp = br.copy()
        s.brightnessDev = br.copy()
    return s


XY = [(10.3, 8.6), (4., 12.), (.8, 1.1)]


def ftol(kind, psfname, flux=200.):
    if psfname in MOG + ('varying',):
        return 2e-5 * flux
    if psfname == 'pixsmall' and kind != 'point':
        return 1e-2 * flux
    if kind == 'point':
        return 2e-5 * flux
    return 3 * FTOL[kind] * flux


def snapshot(tr):
    return [np.array(tr.images[0].getImage()), np.array(tr.images[0].getInvError()), np.array(tr.getAllParams(), float),
            np.array(tr.getModelImage(0))]


def check_sub(ck, im, srcs, full, comps, rect, kind, psfname, box=None):
    """full: model of the parent; comps: model of each source."""
    import tractor as T
    x0, x1, y0, y1 = rect
    sub = im.subimage(x0, x1, y0, y1)
    ck.step()
    same(tuple(sub.shape), (y1 - y0, x1 - x0), 'shape of the subimage')
    close(sub.getImage(), im.getImage()[y0:y1, x0:x1], rtol=0, atol=0, what='pixels of the subimage')
    close(sub.getInvError(), im.getInvError()[y0:y1, x0:x1], rtol=0, atol=0, what='errors of the subimage')
    close(sub.getInvvar(), im.getInvvar()[y0:y1, x0:x1], what='inverse variance of the subimage')
    expect(not np.shares_memory(sub.getImage(), im.getImage()) and not np.shares_memory(sub.getInvError(), im.getInvError()),
           'subimage shares its pixels with the parent')
    same(sub.getTime() == im.getTime(), True, 'time of the subimage')
    same(sub.name, im.name, 'name of the subimage')
    same(sub.modelMinval, im.modelMinval, 'model floor (modelMinval) of the subimage')
    close(sub.getPhotoCal().getAllParams(), im.getPhotoCal().getAllParams(), what='photometric calibration')
    # WCS
    for s in srcs:
        a = np.array(im.getWcs().positionToPixel(s.getPosition(), s), float)
        b = np.array(sub.getWcs().positionToPixel(s.getPosition(), s), float)
        close(b, a - [x0, y0], rtol=0, atol=1e-7, what='pixel position in the subimage')
        close(np.array(sub.getWcs().cdAtPixel(*b)), np.array(im.getWcs().cdAtPixel(*a)), what='CD matrix in the subimage')
        close(np.array(sub.getWcs().cdInverseAtPixel(*b)), np.array(im.getWcs().cdInverseAtPixel(*a)), what='inverse CD matrix')
        close(sub.getWcs().pixscale_at(*b), im.getWcs().pixscale_at(*a), what='pixel scale in the subimage')
        pa, pb = im.getWcs().pixelToPosition(*a), sub.getWcs().pixelToPosition(*b)
        if not isinstance(pa, tuple):
            pa, pb = (pa.ra, pa.dec), (pb.ra, pb.dec)
        close(pb, pa, rtol=0, atol=1e-10, what='sky position of a subimage pixel')
    # sky
    S = np.zeros(im.shape)
    im.getSky().addTo(S)
    s1 = np.zeros(sub.shape)
    sub.getSky().addTo(s1)
    close(s1, S[y0:y1, x0:x1], rtol=1e-9, atol=1e-9, what='sky of the subimage')
    tr = T.Tractor([sub], srcs)
    m = tr.getModelImage(0)
    t = ftol(kind, psfname)
    close_img(m, full[y0:y1, x0:x1], t, 'model of the subimage')
    for s, c in zip(srcs, comps):
        close_img(tr.getModelImage(0, srcs=[s], sky=False), c[y0:y1, x0:x1], t, 'one source in the subimage')
    ck.outcome(round(float(m.sum()), 3))
    return sub


def run_config(ck, wname, mkw, pname, mkp, sname, mks, cname, mkc, mkb, kinds, rects, nested):
    import tractor as T
    im = make_image(mkw(), mkp(), mks(), mkc())
    for kind in kinds:
        srcs = [make_src(kind, im.getWcs(), xy, mkb()) for xy in XY]
        tr = T.Tractor([im], srcs)
        before = snapshot(tr)
        full = before[-1]
        comps = [tr.getModelImage(0, srcs=[s], sky=False) for s in srcs]
        for rect in rects:
            sub = ck.case(dict(wcs=wname, psf=pname, sky=sname, pc=cname, src=kind, rect=rect), check_sub, ck, im, srcs,
                          full, comps, rect, kind, pname)
            if nested and sub is not None and sub is not True:
                x0, x1, y0, y1 = rect
                w, h = x1 - x0, y1 - y0
                for r2 in [(1, w, 0, h - 1), (w // 3, w // 2 + 1, h // 4, h)]:
                    if r2[1] <= r2[0] or r2[3] <= r2[2]:
                        continue
                    ck.case(dict(wcs=wname, psf=pname, sky=sname, src=kind, rect=rect, then=r2), check_nested, ck, im, sub,
                            srcs, full, rect, r2, kind, pname)
        ck.case(dict(wcs=wname, psf=pname, sky=sname, src=kind, parent='unchanged'), unchanged, tr, before)
        ck.case(dict(wcs=wname, psf=pname, sky=sname, pc=cname, src=kind, parent='edited'), edited, ck, tr, before, rects[-1])


def check_nested(ck, im, sub, srcs, full, rect, r2, kind, pname):
    import tractor as T
    ss = sub.subimage(*r2)
    X0, Y0 = rect[0] + r2[0], rect[2] + r2[2]
    X1, Y1 = rect[0] + r2[1], rect[2] + r2[3]
    close(ss.getImage(), im.getImage()[Y0:Y1, X0:X1], rtol=0, atol=0, what='pixels of a sub-subimage')
    close_img(T.Tractor([ss], srcs).getModelImage(0), full[Y0:Y1, X0:X1], ftol(kind, pname), 'model of a sub-subimage')
    # and the first-level subimage still is what it was
    close_img(T.Tractor([sub], srcs).getModelImage(0), full[rect[2]:rect[3], rect[0]:rect[1]], ftol(kind, pname),
              'model of the subimage after taking a sub-subimage')
    ck.step(2)


def unchanged(tr, before):
    after = snapshot(tr)
    for a, b, w in zip(after, before, ['pixels', 'errors', 'parameters', 'model']):
        close(a, b, rtol=1e-9, atol=1e-9, what='parent %s after taking subimages' % w)


def edited(ck, tr, before, rect):
    """Pixels, sky, calibration and WCS of a subimage are its own."""
    sub = tr.images[0].subimage(*rect)
    sub.getImage()[:] += 1.
    sub.getInvError()[:] *= 2.
    for part, f in ((sub.getPhotoCal(), 1.01), (sub.getSky(), 1.1), (sub.getWcs(), 1.00001)):
        part.setAllParams([v * f + 1e-4 for v in part.getAllParams()])
        ck.step()
    unchanged(tr, before)


def check_shifted_wrappers(ck, kind, pname, mkp, off, mask):
    """ShiftedPsf / ShiftedWcs around any PSF / WCS."""
    import tractor as T
    from tractor.shifted import ShiftedPsf, ShiftedWcs
    from tractor.patch import ModelMask
    from tractor.wcs import TanWcs
    x0, y0 = off
    im = make_image(TanWcs(tan(w=20, h=18, rot=10.)), mkp(), T.ConstantSky(1.), T.LinearPhotoCal(2.))
    src = make_src(kind, im.getWcs(), (10.3, 8.6), T.Flux(100.))
    H, W = SHAPE
    slc = (slice(y0, H), slice(x0, W))
    sub = T.Image(data=im.getImage()[slc], inverr=im.getInvError()[slc], psf=ShiftedPsf(im.getPsf(), x0, y0),
                  wcs=ShiftedWcs(im.getWcs(), x0, y0), sky=T.ConstantSky(1.), photocal=T.LinearPhotoCal(2.))
    if mask is None:
        full = T.Tractor([im], [src]).getModelImage(0)
        close_img(T.Tractor([sub], [src]).getModelImage(0), full[slc], ftol(kind, pname), 'model through shifted PSF and WCS')
    else:
        mx, my, w, h = mask[:4]
        if len(mask) > 4:
            b = np.ones((h, w), bool)
            b[0, 0] = False
            b[h // 2, w // 2] = False
            a = (b,)
        else:
            b = np.ones((h, w), bool)
            a = (w, h)
        p = src.getModelPatch(im, modelMask=ModelMask(mx, my, *a))
        q = src.getModelPatch(sub, modelMask=ModelMask(mx - x0, my - y0, *a))
        same(p is None, q is None, 'something rendered')
        if p is not None:
            same((q.x0, q.y0) + q.patch.shape, (mx - x0, my - y0, h, w), 'footprint')
            close_img(q.patch[b], p.patch[b], ftol(kind, pname), 'masked model through shifted PSF and WCS')
    ck.step()


def check_floor(ck, mv, r1, r2):
    """The floor below which models may be cut goes with the subimage: the same pixels are lit."""
    import tractor as T
    from tractor.basics import NullWCS
    im = T.Image(data=np.zeros((18, 20)), inverr=np.ones((18, 20)), psf=T.GaussianMixturePSF(*[a.copy() for a in scene.PSF2]), wcs=NullWCS(),
                 photocal=T.LinearPhotoCal(1.), sky=T.ConstantSky(0.))
    im.modelMinval = mv
    sub = im.subimage(*r1)
    x0, y0 = r1[0], r1[2]
    if r2:
        sub = sub.subimage(*r2)
        x0, y0 = x0 + r2[0], y0 + r2[2]
    same(sub.modelMinval, mv, 'model floor of the subimage')
    h, w = sub.shape
    for kind in ('point', 'gauss', 'exp'):
        s = scene.build_source(scene.source(kind, 7.3, 7.8, flux=500.))
        a = T.Tractor([im], [s]).getModelImage(0)[y0:y0 + h, x0:x0 + w]
        b = T.Tractor([sub], [s]).getModelImage(0)
        t = 1e-3 + 3. * mv
        close_img(b, a, t, 'model of a %s in the subimage' % kind)
        ck.step()


def bent_wcs():
    """A flat WCS whose local scale depends (differently) on x and y."""
    from tractor import ducks

    class Bent(ducks.WCS):
        def hashkey(self):
            return ('Bent',)

        def positionToPixel(self, pos, src=None):
            return pos.x**2 / 4., pos.y**2 / 9.

        def pixelToPosition(self, x, y, src=None):
            from tractor import PixPos
            return PixPos(2. * np.sqrt(x), 3. * np.sqrt(y))

        def cdAtPixel(self, x, y):
            return np.array([[1. / np.sqrt(x), .01 * y], [.02 * x, 1.5 / np.sqrt(y)]]) / 3600.

        def getParams(self):
            return []

        def numberOfParams(self):
            return 0
    return Bent()


def xy_of(p):
    if isinstance(p, tuple):
        return p
    return (p.ra, p.dec) if hasattr(p, 'ra') else (p.x, p.y)


def check_shifted_wcs(ck, wname, mkw, offs, pix):
    """ShiftedWcs (and shifts of shifts) around any WCS."""
    import tractor as T
    from tractor.shifted import ShiftedWcs
    w0 = mkw()
    w = ShiftedWcs(w0, *offs[0])
    for o in offs[1:]:
        w = w.shifted(*o)
    X0, Y0 = sum(o[0] for o in offs), sum(o[1] for o in offs)
    for (x, y) in pix:
        p = w0.pixelToPosition(x, y)
        q = w.pixelToPosition(x - X0, y - Y0)
        close(xy_of(q), xy_of(p), rtol=0, atol=1e-9, what='position of a pixel')
        pp = T.PixPos(*p) if isinstance(p, tuple) else p
        close(w.positionToPixel(pp), np.array(w0.positionToPixel(pp), float) - [X0, Y0], rtol=0, atol=1e-7, what='pixel of a position')
        close(np.array(w.cdAtPixel(x - X0, y - Y0)), np.array(w0.cdAtPixel(x, y)), what='CD matrix')
        close(np.array(w.cdInverseAtPixel(x - X0, y - Y0)), np.array(w0.cdInverseAtPixel(x, y)), what='inverse CD matrix')
        close(np.array(w.cdInverseAtPosition(pp)), np.array(w0.cdInverseAtPosition(pp)), what='inverse CD matrix at a position')
        close(w.pixscale_at(x - X0, y - Y0), w0.pixscale_at(x, y), what='pixel scale')
        ck.step(5)
        ck.outcome((wname, x - X0, y - Y0))


def check_scaled(ck, wname, mkw, f, pix):
    import tractor as T
    from tractor.shifted import ScaledWcs
    w0 = mkw()
    w = ScaledWcs(w0, f)
    for (x, y) in pix:
        p = w0.pixelToPosition(x, y)
        pp = T.PixPos(*p) if isinstance(p, tuple) else p
        xs, ys = (x + .5) * f - .5, (y + .5) * f - .5
        close(w.positionToPixel(pp), (xs, ys), rtol=0, atol=1e-6, what='scaled pixel of a position')
        close(np.array(w.cdAtPixel(xs, ys)), np.array(w0.cdAtPixel(x, y)) / f, rtol=1e-6, atol=1e-12, what='CD matrix of the scaled WCS')
        close(w.pixscale_at(xs, ys), w0.pixscale_at(x, y) / f, rtol=1e-6, what='pixel scale of the scaled WCS')
        ck.step(3)
    close(w.getParams(), w0.getParams(), what='parameters of the scaled WCS')


def check_scaled_other(ck, f):
    """Scaled photometric calibrations, PSFs and skies."""
    import tractor as T
    from tractor.shifted import ScaledPhotoCal
    for pn, mkc, mkb in photocals():
        pc, b = mkc(), mkb()
        close(ScaledPhotoCal(pc, f).brightnessToCounts(b), f * pc.brightnessToCounts(b), what='counts of a scaled calibration')
    ps = T.NCircularGaussianPSF([1.2, 2.], [.8, .2])
    q = ps.scale(f)
    g = T.GaussianMixturePSF(*[a.copy() for a in scene.PSF2])
    h = g.scaleBy(f)
    for a, b, w in ((ps, q, 'circular'), (g, h, 'mixture')):
        ma, mb = a.getMixtureOfGaussians(), b.getMixtureOfGaussians()
        close(mb.amp, ma.amp, what='amplitudes of a scaled %s PSF' % w)
        close(mb.mean, ma.mean * f, what='means of a scaled %s PSF' % w)
        close(mb.var, ma.var * f**2, rtol=1e-5, what='variances of a scaled %s PSF' % w)
    close(ps.getAllParams(), [1.2, 2., .8, .2], what='PSF after scaling a copy')
    close(g.getMixtureOfGaussians().var, scene.PSF2[2], what='PSF after scaling a copy')
    for sn, mks in skies():
        if sn == 'none':
            continue
        sky = mks()
        a = np.zeros((7, 9))
        sky.addTo(a)
        sky.scale(f)
        b = np.zeros((7, 9))
        sky.addTo(b)
        close(b, f * a, rtol=1e-9, atol=1e-9, what='scaled sky %s' % sn)
    ck.step(6)


def check_wrapped_derivs(ck, kind, pname, mkp, off, boolmask):
    """Derivatives of a source through the shifted wrappers are those of the parent, shifted."""
    import tractor as T
    from tractor.shifted import ShiftedPsf, ShiftedWcs
    from tractor.patch import ModelMask
    from tractor.wcs import TanWcs
    x0, y0 = off
    im = make_image(TanWcs(tan(w=20, h=18, rot=10.)), mkp(), T.ConstantSky(1.), T.LinearPhotoCal(2.))
    src = make_src(kind, im.getWcs(), (10.3, 8.6), T.Flux(100.))
    H, W = SHAPE
    slc = (slice(y0, H), slice(x0, W))
    sub = T.Image(data=im.getImage()[slc], inverr=im.getInvError()[slc], psf=ShiftedPsf(im.getPsf(), x0, y0),
                  wcs=ShiftedWcs(im.getWcs(), x0, y0), sky=T.ConstantSky(1.), photocal=T.LinearPhotoCal(2.))
    mx, my, w, h = 9, 8, 7, 6
    b = np.ones((h, w), bool)
    if boolmask:
        b[0, 1] = b[3, 3] = False
    a = (b,) if boolmask else (w, h)
    P = src.getParamDerivatives(im, modelMask=ModelMask(mx, my, *a))
    Q = src.getParamDerivatives(sub, modelMask=ModelMask(mx - x0, my - y0, *a))
    same(len(Q), len(P), 'number of derivatives')
    for i, (p, q) in enumerate(zip(P, Q)):
        same(p is None, q is None, 'derivative %d present' % i)
        if p is None:
            continue
        A = dense(p, (mx, mx + w, my, my + h))
        B = dense(q, (mx - x0, mx + w - x0, my - y0, my + h - y0))
        close_img(B[b], A[b], 2e-3 * max(1e-9, np.abs(A).max()), 'derivative %d (%s)' % (i, p.name))
    ck.step()


def run(ck):
    ck.section('shifted and scaled', 'every WCS kind (and one with a position-dependent matrix) x lists of up to 2 shifts, scale '
               'factors x 4 pixels; calibrations, PSFs, skies; source derivatives through shifted wrappers')
    pix = [(10.3, 8.6), (4., 12.), (17.5, 1.1), (.8, 16.2)]
    for wn, w in wcss() + [('bent', bent_wcs)]:
        for o1 in [(0, 0), (3, 0), (0, 4), (5, 2), (2, 9)]:
            for o2 in [None, (1, 0), (0, 3), (4, 7), (-2, -1)]:
                offs = [o1] + ([o2] if o2 else [])
                ck.case(dict(shift=wn, by=offs), check_shifted_wcs, ck, wn, w, offs, pix)
        for f in (.5, 1., 2., 3.):
            if wn != 'bent':
                ck.case(dict(scale=wn, by=f), check_scaled, ck, wn, w, f, pix)
    ck.case(dict(scale='bent', by=2.), check_scaled, ck, 'bent', bent_wcs, 2., pix)
    for f in (.5, 1., 2., 3.):
        ck.case(dict(scale='others', by=f), check_scaled_other, ck, f)
    for kind in ['point', 'gauss', 'exp', 'dev', 'fixcomp', 'comp', 'devcore', 'sercore']:
        for pn, p in ALLPSFS():
            if pn not in MOG + ('varying',) and kind != 'point':
                continue
            for off in [(0, 0), (3, 0), (0, 4), (5, 2), (4, 7)]:
                for bm in ([0, 1] if pn in MOG + ('varying',) else [0]):
                    ck.case(dict(derivs=kind, psf=pn, off=off, boolmask=bm), check_wrapped_derivs, ck, kind, pn, p, off, bm)
    for mv in (0., .003, .5, 20.):
        for r1 in [(0, 20, 0, 18), (3, 17, 2, 16), (0, 13, 4, 18)]:
            for r2 in [None, (1, 10, 2, 9)]:
                ck.case(dict(floor=mv, rect=r1, nested=r2), check_floor, ck, mv, r1, r2)
    W = wcss()
    S = skies()
    P = ALLPSFS()
    C = photocals()
    xs = [0, 3, 8, 11, 14, 20] if ck.thorough else [0, 3, 11, 20]
    ys = [0, 2, 7, 9, 13, 18] if ck.thorough else [0, 2, 9, 18]
    allr = [(a, b, c, d) for a in xs for b in xs if b > a for c in ys for d in ys if d > c]
    fewr = [(0, 20, 0, 18), (3, 20, 2, 18), (0, 11, 0, 9), (8, 14, 6, 12), (9, 10, 0, 18), (4, 17, 12, 18), (3, 4, 2, 3)]
    cont = [(0, 20, 0, 18), (3, 20, 2, 18), (0, 13, 0, 12), (8, 14, 6, 12), (4, 17, 5, 18)]
    jobs = []
    for (wn, w) in W:
        jobs.append(('geometry', (wn, w), P[0], S[2], C[0], ['point', 'exp'], allr, True))
    for (pn, p) in P:
        jobs.append(('geometry', W[2], (pn, p), S[1], C[0], ['point'], allr, False))
        for kind in ['gauss', 'exp', 'dev', 'fixcomp', 'comp', 'devcore', 'sercore']:
            rs = allr if pn in MOG or pn == 'varying' else (fewr if ck.thorough else fewr[:4])
            jobs.append(('galaxies', W[2], (pn, p), S[1], C[0], [kind], rs, False))
            jobs.append(('galaxies', W[5], (pn, p), S[1], C[0], [kind], rs[::2], False))
    for (wn, w) in W:
        for (pn, p) in P:
            for (sn, s) in S:
                for (cn, c, b) in C:
                    jobs.append(('all combinations', (wn, w), (pn, p), (sn, s), (cn, c, b), ['point'], fewr, True))

    def shard(sub, k):
        for i, (sec, w, p, s, c, kinds, rs, nested) in enumerate(jobs):
            if i % 24 != k:
                continue
            sub.section(sec, 'sub-rectangles of an 18x20 image; WCS kinds %d, PSF kinds %d, sky kinds %d, calibrations %d' % (
                len(W), len(P), len(S), len(C)))
            run_config(sub, w[0], w[1], p[0], p[1], s[0], s[1], c[0], c[1], c[2], kinds, rs, nested)
    ck.shards(range(24), shard)

    ck.section('shifted wrappers', 'ShiftedPsf x ShiftedWcs: source kinds x PSF kinds x offsets x masks')
    for kind in ['point', 'gauss', 'exp', 'dev', 'fixcomp', 'comp', 'devcore', 'sercore']:
        for pn, p in P:
            if pn not in MOG + ('varying',) and kind != 'point':
                continue
            for off in [(0, 0), (3, 0), (0, 4), (5, 2), (9, 8)]:
                masks = [None, (8, 7, 4, 3), (10, 8, 6, 6), (0, 0, 20, 18), (9, 8, 3, 4, 'b')]
                for m in masks:
                    if pn not in MOG + ('varying',) and m is not None and len(m) > 4:
                        m = m[:4]
                    ck.case(dict(wrap=True, src=kind, psf=pn, off=off, mask=m), check_shifted_wrappers, ck, kind, pn, p, off, m)
    ck.assumptions += ['rectangles inside the parent image (the slices numpy would clip are not used)',
                       'tolerances for galaxies under pixelised PSFs as in P07 (Fourier wrap-around)']
