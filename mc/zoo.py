"""
Small instances of the parameterised objects of the package, each with a
`behaviour` function that returns what a user can observe of it (flat dict of
arrays).  Used by the copy, pickle, FITS and cache checks.
"""
import numpy as np
from mc.core import texture


def dense(patch, box):
    """Patch -> array over box (x0,x1,y0,y1); outside is zero."""
    x0, x1, y0, y1 = box
    out = np.zeros((y1 - y0, x1 - x0))
    if patch is None or patch.patch is None:
        return out
    p = np.asarray(patch.patch, float)
    h, w = p.shape
    for j in range(h):
        Y = patch.y0 + j - y0
        if Y < 0 or Y >= out.shape[0]:
            continue
        xs = patch.x0 - x0
        a = max(0, -xs)
        b = min(w, out.shape[1] - xs)
        if b > a:
            out[Y, xs + a:xs + b] += p[j, a:b]
    return out


def flags(o, pre=''):
    """Recursive frozen flags through the public observers."""
    out = []
    if hasattr(o, 'getThawedParamIndices') and hasattr(o, 'liquid'):
        out.append((pre, tuple(o.getThawedParamIndices()), tuple(o.getFrozenParamIndices())))
        if hasattr(o, 'subs'):
            for i, s in enumerate(o.subs):
                if s is not None:
                    out.extend(flags(s, pre + '.%d' % i))
    return tuple(out)


def beh_params(o):
    d = {}
    d['params'] = np.array(o.getParams(), float)
    d['allparams'] = np.array(o.getAllParams(), float)
    return d


def tan(crval=(10., 20.), scale=1., w=30, h=30, rot=0.):
    from astrometry.util.util import Tan
    c = scale / 3600.
    cr, sr = np.cos(np.deg2rad(rot)), np.sin(np.deg2rad(rot))
    return Tan(crval[0], crval[1], w / 2. + 0.5, h / 2. + 0.5,
               float(-c * cr), float(c * sr), float(c * sr), float(c * cr), float(w), float(h))


def probe_image(psf=None, wcs=None, photocal=None, sky=None, shape=(14, 15), seed=3, time=None):
    from tractor import Image, NCircularGaussianPSF
    if psf is None:
        psf = NCircularGaussianPSF([1.2, 2.5], [0.8, 0.2])
    return Image(data=texture(shape, seed), inverr=0.5 + 0.5 * np.abs(texture(shape, seed + 1)),
                 psf=psf, wcs=wcs, photocal=photocal, sky=sky, name='probe', time=time)


PSF_PROBES = [(5., 6.), (5.3, 6.), (4.75, 6.4)]


def beh_psf(o):
    d = {}
    if hasattr(o, 'getAllParams'):
        try:
            d.update(beh_params(o))
        except AttributeError:
            pass
    for px, py in PSF_PROBES:
        d['patch %g,%g' % (px, py)] = dense(o.getPointSourcePatch(px, py), (-30, 41, -30, 42))
    d['radius'] = np.array(float(o.getRadius()))
    if hasattr(o, 'getMixtureOfGaussians'):
        m = o.getMixtureOfGaussians(px=5., py=6.)
        d['mog'] = np.concatenate((np.ravel(m.amp), np.ravel(m.mean), np.ravel(m.var)))
    if hasattr(o, 'getFourierTransform'):
        P, c, s, vw = o.getFourierTransform(5., 6., 8.)
        d['fft'] = np.concatenate((P.real.ravel(), P.imag.ravel(), np.array(c, float), np.array(s, float)))
    return d


def beh_sky(o):
    d = beh_params(o)
    a = texture((9, 11), 5)
    o.addTo(a)
    d['addTo'] = a
    a = texture((9, 11), 5)
    o.addTo(a, scale=-2.5)
    d['addTo scaled'] = a
    return d


def beh_photocal(o, bright):
    d = beh_params(o)
    d['counts'] = np.array([o.brightnessToCounts(b) for b in bright], float)
    return d


def beh_pixwcs(o):
    from tractor import PixPos
    d = beh_params(o)
    d['p2p'] = np.array([o.positionToPixel(PixPos(x, y)) for x, y in [(1., 2.), (-3., 7.5)]])
    d['inv'] = np.array([o.pixelToPosition(x, y) for x, y in [(1., 2.), (-3., 7.5)]])
    d['cd'] = np.array(o.cdAtPixel(3., 4.))
    return d


def beh_wcs(o):
    from tractor import RaDecPos
    d = beh_params(o)
    d['p2p'] = np.array([o.positionToPixel(RaDecPos(r, dd)) for r, dd in [(10., 20.), (10.001, 19.998)]])
    rd = [o.pixelToPosition(x, y) for x, y in [(1., 2.), (12., 7.5)]]
    d['inv'] = np.array([(p.ra, p.dec) for p in rd])
    d['cd'] = np.array(o.cdAtPixel(3., 4.))
    return d


def beh_shape(o):
    d = beh_params(o)
    if hasattr(o, 'getRaDecBasis'):
        d['basis'] = np.array(o.getRaDecBasis())
    if hasattr(o, 'getTensor'):
        d['tensor'] = np.array(o.getTensor(np.array([[1. / 3600, 0.], [0., 1. / 3600]])))
    return d


def render(src, img):
    H, W = img.shape
    return dense(src.getModelPatch(img), (0, W, 0, H))


def beh_source(o, imgs):
    d = beh_params(o)
    for i, im in enumerate(imgs):
        d['render%d' % i] = render(o, im)
    return d


def psf_stamp(n=9, seed=11):
    y, x = np.mgrid[:n, :n] - n // 2
    g = np.exp(-0.5 * (x**2 + 1.3 * y**2 + 0.4 * x * y) / 1.7**2)
    g = g * (1. + 0.05 * texture((n, n), seed))
    return (g / g.sum()).astype(np.float32)


def psfex_model(degree=1, sampling=1., n=9):
    from tractor.psfex import PsfExModel
    m = PsfExModel()
    ne = (degree + 1) * (degree + 2) // 2
    m.sampling = sampling
    m.degree = degree
    m.x0, m.y0 = 6., 7.
    m.xscale, m.yscale = 10., 12.
    b = [psf_stamp(n)]
    for i in range(1, ne):
        b.append(0.1 * psf_stamp(n, 20 + i) * texture((n, n), 40 + i))
    m.psfbases = np.array(b).astype(np.float32)
    m.radius = (n + 1) / 2.
    m.fwhm = 2.5
    return m


class Item(object):
    def __init__(self, name, make, behave, kind, tol=1e-6):
        self.name = name
        self.make = make
        self.behave = behave
        self.kind = kind
        self.tol = tol


def zoo():
    import tractor as T
    from tractor.psf import HybridPixelizedPSF, NormalizedPixelizedPsf, GaussianMixtureEllipsePSF
    from tractor.psfex import PixelizedPsfEx
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import (GalaxyShape, GaussianGalaxy, ExpGalaxy, DevGalaxy, FixedCompositeGalaxy,
                                CompositeGalaxy, FracDev, SoftenedFracDev)
    from tractor.splinesky import SplineSky
    from tractor.basics import (ConstantSurfaceBrightness, NullSky, NullWCS, NullPhotoCal, MagsPhotoCal,
                                FluxesPhotoCal, Fluxes, ConstantFitsWcs, TAITime)
    from tractor.motion import MovingPointSource, PMRaDec
    from tractor.utils import NpArrayParams, MogParams
    from tractor.sersic import SersicGalaxy, SersicIndex
    items = []

    def add(*a, **k):
        items.append(Item(*a, **k))

    # positions, brightnesses
    add('PixPos', lambda: T.PixPos(3.5, 4.25), beh_params, 'leaf')
    add('RaDecPos', lambda: T.RaDecPos(10.5, -4.25), beh_params, 'leaf')
    add('PMRaDec', lambda: PMRaDec(1e-4, -2e-4), beh_params, 'leaf')
    add('Flux', lambda: T.Flux(12.5), beh_params, 'leaf')
    add('Mag', lambda: T.Mag(17.25), beh_params, 'leaf')
    add('TAITime', lambda: TAITime(4.6e9), beh_params, 'leaf')

    def beh_mb(o):
        d = beh_params(o)
        d['bands'] = np.array([o.getBand(b) for b in o.order], float)
        d['order'] = np.array([ord(b) for b in o.order], float)
        return d
    add('Mags', lambda: T.Mags(r=17., g=18., z=16., order=['r', 'g', 'z']), beh_mb, 'leaf')
    add('Fluxes', lambda: Fluxes(r=17., g=18., z=16., order=['z', 'g', 'r']), beh_mb, 'leaf')
    add('NanoMaggies', lambda: T.NanoMaggies(r=17., g=18., z=16., order=['r', 'g', 'z']), beh_mb, 'leaf')
    # shapes
    add('EllipseE', lambda: EllipseE(2., 0.3, -0.2), beh_shape, 'leaf')
    add('EllipseESoft', lambda: EllipseESoft(0.7, 0.3, -0.2), beh_shape, 'leaf')
    add('GalaxyShape', lambda: GalaxyShape(2., 0.6, 35.), beh_shape, 'leaf')
    add('FracDev', lambda: FracDev(0.3), beh_params, 'leaf')
    add('SoftenedFracDev', lambda: SoftenedFracDev(0.3), beh_params, 'leaf')
    add('NpArrayParams', lambda: NpArrayParams(np.array([1., 2., 3.])), beh_params, 'leaf')
    add('MogParams', lambda: MogParams(np.array([.6, .4]), np.array([[0., 0.], [1., .5]]),
                                       np.array([[[2., .3], [.3, 1.5]], [[4., 0.], [0., 5.]]])), beh_params, 'leaf')
    # photocals
    fl = [T.Flux(3.), T.Flux(-2.)]
    mb = [Fluxes(g=3., r=5.)]
    mg = [T.Mags(g=20., r=21.), T.Mags(g=60., r=21.)]
    add('NullPhotoCal', lambda: NullPhotoCal(), lambda o: beh_photocal(o, fl), 'calib')
    add('LinearPhotoCal', lambda: T.LinearPhotoCal(2.5), lambda o: beh_photocal(o, fl), 'calib')
    add('LinearPhotoCal-band', lambda: T.LinearPhotoCal(2.5, band='r'), lambda o: beh_photocal(o, mb), 'calib')
    add('MagsPhotoCal', lambda: MagsPhotoCal('g', 22.), lambda o: beh_photocal(o, mg), 'calib')
    add('FluxesPhotoCal', lambda: FluxesPhotoCal('g'), lambda o: beh_photocal(o, mb), 'calib')
    # skies
    add('NullSky', lambda: NullSky(), beh_sky, 'calib')
    add('ConstantSky', lambda: T.ConstantSky(7.5), beh_sky, 'calib')

    def spl(order=3, shift=None):
        s = SplineSky(np.array([0., 4., 8., 12.]), np.array([0., 3., 6., 9., 12.]), texture((5, 4), 9), order=order)
        if shift:
            s.shift(*shift)
        return s
    add('SplineSky', lambda: spl(), beh_sky, 'calib', tol=1e-5)
    add('SplineSky-linear-shifted', lambda: spl(1, (2, 1)), beh_sky, 'calib', tol=1e-5)
    # WCS
    add('NullWCS', lambda: NullWCS(), beh_pixwcs, 'calib')
    add('NullWCS-scaled', lambda: NullWCS(pixscale=0.4, dx=1.5, dy=-2.5), beh_pixwcs, 'calib')
    add('ConstantFitsWcs', lambda: ConstantFitsWcs(tan()), beh_wcs, 'calib', tol=1e-9)

    def cfw():
        w = ConstantFitsWcs(tan(rot=30.))
        w.setX0Y0(3, 2)
        return w
    add('ConstantFitsWcs-offset', cfw, beh_wcs, 'calib', tol=1e-9)

    def tw():
        w = T.TanWcs(tan(rot=30.))
        w.setX0Y0(3., 2.)
        return w
    add('TanWcs', tw, beh_wcs, 'calib', tol=1e-9)
    # PSFs
    add('NCircularGaussianPSF', lambda: T.NCircularGaussianPSF([1.2, 2.5], [0.8, 0.2]), beh_psf, 'calib')

    def ncr():
        p = T.NCircularGaussianPSF([.5, .3], [0.8, 0.2])
        p.minradius = 7.
        return p
    add('NCircularGaussianPSF-minradius', ncr, beh_psf, 'calib')

    def gm():
        return T.GaussianMixturePSF(np.array([.7, .3]), np.array([[0., 0.], [.3, -.2]]),
                                    np.array([[[2., .3], [.3, 1.5]], [[5., -.4], [-.4, 6.]]]))
    add('GaussianMixturePSF', gm, beh_psf, 'calib')

    def rad(mk, r):
        p = mk()
        p.radius = r
        return p
    add('GaussianMixturePSF-radius', lambda: rad(gm, 4), beh_psf, 'calib')
    add('NCircularGaussianPSF-radius', lambda: rad(lambda: T.NCircularGaussianPSF([1.2, 2.5], [0.8, 0.2]), 5), beh_psf, 'calib')
    add('PixelizedPSF-radius', lambda: rad(lambda: T.PixelizedPSF(psf_stamp()), 3.5), beh_psf, 'calib')
    add('GaussianMixtureEllipsePSF', lambda: GaussianMixtureEllipsePSF(
        np.array([.7, .3]), np.array([[0., 0.], [.3, -.2]]),
        [EllipseESoft(.3, .1, .2), EllipseESoft(.9, -.3, .1)]), beh_psf, 'calib')
    add('PixelizedPSF', lambda: T.PixelizedPSF(psf_stamp()), beh_psf, 'calib')
    add('PixelizedPSF-big', lambda: T.PixelizedPSF(psf_stamp(13)), beh_psf, 'calib')
    add('PixelizedPSF-oversampled', lambda: T.PixelizedPSF(psf_stamp(13), sampling=0.5), beh_psf, 'calib')
    add('NormalizedPixelizedPsf', lambda: NormalizedPixelizedPsf(3. * psf_stamp(11)), beh_psf, 'calib', tol=3e-6)
    add('HybridPixelizedPSF', lambda: HybridPixelizedPSF(T.PixelizedPSF(psf_stamp(11)), gm()), beh_psf, 'calib')
    add('PixelizedPsfEx', lambda: PixelizedPsfEx(None, psfex=psfex_model(2)), beh_psf, 'calib', tol=3e-6)
    add('PixelizedPsfEx-oversampled', lambda: PixelizedPsfEx(None, psfex=psfex_model(1, 0.5, 13)), beh_psf, 'calib',
        tol=3e-6)

    # sources
    pim = [probe_image(wcs=NullWCS(), photocal=T.LinearPhotoCal(2.)),
           probe_image(psf=T.PixelizedPSF(psf_stamp(11)), wcs=NullWCS(dx=1.))]
    pos = lambda: T.PixPos(6.3, 5.8)
    add('PointSource', lambda: T.PointSource(pos(), T.Flux(30.)), lambda o: beh_source(o, pim), 'source', tol=1e-4)

    def psr():
        s = T.PointSource(pos(), T.Flux(30.))
        s.fixedRadius = 3
        s.minRadius = 2
        return s

    def psm():
        s = T.PointSource(pos(), T.Flux(30.))
        s.minRadius = 6
        return s
    fpim = probe_image(psf=gm(), wcs=NullWCS())
    fpim.modelMinval = .05
    add('PointSource-minradius', psm, lambda o: beh_source(o, pim + [fpim]), 'source', tol=1e-4)
    add('PointSource-radius', psr, lambda o: beh_source(o, pim), 'source', tol=1e-4)
    for nm, cls in [('Gaussian', GaussianGalaxy), ('Exp', ExpGalaxy), ('Dev', DevGalaxy)]:
        add(nm + 'Galaxy', lambda cls=cls: cls(pos(), T.Flux(80.), EllipseE(1.8, .3, -.2)),
            lambda o: beh_source(o, pim), 'source', tol=1e-4)
    add('ExpGalaxy-shape', lambda: ExpGalaxy(pos(), T.Flux(80.), GalaxyShape(1.8, .6, 40.)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    add('FixedCompositeGalaxy', lambda: FixedCompositeGalaxy(
        pos(), T.Flux(80.), SoftenedFracDev(0.4), EllipseE(1.8, .3, -.2), EllipseE(1.3, -.1, .1)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    add('CompositeGalaxy', lambda: CompositeGalaxy(
        pos(), T.Flux(80.), EllipseE(1.8, .3, -.2), T.Flux(50.), EllipseE(1.3, -.1, .1)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    add('SersicGalaxy', lambda: SersicGalaxy(pos(), T.Flux(80.), EllipseE(1.8, .3, -.2), SersicIndex(2.3)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    from tractor.devcore import DevCoreGalaxy
    from tractor.sercore import SersicCoreGalaxy
    add('DevCoreGalaxy', lambda: DevCoreGalaxy(pos(), T.Flux(80.), EllipseE(1.8, .3, -.2), T.Flux(50.)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    add('SersicCoreGalaxy', lambda: SersicCoreGalaxy(pos(), T.Flux(80.), EllipseE(1.8, .3, -.2), SersicIndex(2.3), T.Flux(50.)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    add('ConstantSurfaceBrightness', lambda: ConstantSurfaceBrightness(T.Flux(3.)),
        lambda o: beh_source(o, pim), 'source', tol=1e-4)
    rim = [probe_image(wcs=ConstantFitsWcs(tan()), photocal=T.LinearPhotoCal(2.), time=TAITime(4.6e9))]
    add('MovingPointSource', lambda: MovingPointSource(
        T.RaDecPos(10.0005, 20.0003), T.Flux(30.), PMRaDec(1e-5, 2e-5), 0.3, epoch=TAITime(4.55e9)),
        lambda o: beh_source(o, rim), 'source', tol=1e-4)
    add('Catalog', lambda: T.Catalog(T.PointSource(pos(), T.Flux(30.)),
                                     ExpGalaxy(T.PixPos(3., 9.), T.Flux(80.), EllipseE(1.8, .3, -.2))),
        lambda o: dict(beh_params(o), **dict(('src%d' % i, render(s, pim[0])) for i, s in enumerate(o))),
        'source', tol=1e-4)

    def beh_img(o):
        d = beh_params(o)
        d['data'] = np.array(o.getImage())
        d['inverr'] = np.array(o.getInvError())
        d['render'] = render(T.PointSource(pos(), T.Flux(30.)), o)
        a = np.zeros(o.shape)
        o.getSky().addTo(a)
        d['sky'] = a
        d['minval'] = np.array(o.modelMinval)
        d['time'] = np.array(o.getTime().getValue())
        return d

    def mkimg():
        im = probe_image(photocal=T.LinearPhotoCal(2.), sky=T.ConstantSky(3.), wcs=NullWCS(pixscale=.5), time=TAITime(4.6e9))
        im.modelMinval = 0.001
        return im
    add('Image', mkimg, beh_img, 'image', tol=1e-4)
    return items
