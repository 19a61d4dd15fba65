"""
P06: the model image is sky + the sum of the sources, whatever was done before.

A: every ordered list of up to N sources over the kinds (and positions incl.
   outside / at the corner), several images: model image(s), restricted to
   subsets of sources, with and without sky, against the reference renderer.
B: breadth over operation histories on one Tractor object (parameter changes,
   freezing, source edits, every observer): after every history the images
   must be those of the mirrored parameters, and observers change nothing.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, close_img, same

TOL = 3e-5      # per unit of flux (the evaluators cut Gaussians at ~1e-6 level)

POS = [(6.3, 5.8), (2., 9.), (0., 0.), (11.6, 4.4), (-1.7, 6.), (30., 5.), (300., -80.)]


def tol(srcs, im):
    return TOL * max(1., sum(abs(s['flux']) + abs(s['flux2'] if s['kind'] in scene.TWO else 0.) for s in srcs)) * abs(im['scale']) + 1e-4


def imgs(n=2):
    return [scene.image(sky=3., scale=2., dx=.25, seed=1),
            scene.image(shape=(9, 11), psf=scene.PSF1, dx=-1.5, dy=.5, pixscale=.5, sky=-1., seed=2),
            scene.image(shape=(10, 8), psf=scene.PSF1, dy=-3., scale=-1.5, seed=3)][:n]


def check_list(ck, kinds, posi, ims):
    import tractor as T
    S = [scene.source(k, *POS[(posi + i) % len(POS)], flux=[100., -40., 7.][i % 3]) for i, k in enumerate(kinds)]
    tr = T.Tractor([scene.build_image(i) for i in ims], [scene.build_source(s) for s in S])
    p0 = list(tr.getAllParams())
    d0 = [np.array(im.getImage()) for im in tr.images]
    tot = list(tr.getModelImages())
    same(len(tot), len(ims), 'number of model images')
    for i, im in enumerate(ims):
        R = scene.ref_image(S, im)
        t = tol(S, im)
        close_img(tot[i], R, t, 'model image %d' % i)
        close_img(tr.getModelImage(i), R, t, 'model image %d by index' % i)
        close_img(tr.getModelImage(tr.images[i], sky=False), R - im['sky'], t, 'model image without sky')
        ck.step(3)
        for sub in itertools.product([0, 1], repeat=len(S)):
            sl = [tr.catalog[j] for j in range(len(S)) if sub[j]]
            m = tr.getModelImage(i, srcs=sl)
            close_img(m, scene.ref_image([S[j] for j in range(len(S)) if sub[j]], im), t, 'model of sources %s' % (sub,))
            ck.step()
            ck.outcome((i, round(float(m.sum()), 2)))
        for j, s in enumerate(S):
            pch = tr.getModelPatch(tr.images[i], tr.catalog[j])
            from mc.zoo import dense
            H, W = im['shape']
            close_img(dense(pch, (0, W, 0, H)), scene.ref_source(s, im), t, 'patch of source %d' % j)
            ck.step()
    # the catalog with a hole (None entries are skipped), and frozen sources still count
    tr.catalog.freezeAllParams()
    tr.images.freezeAllParams()
    close_img(tr.getModelImage(0), tot[0], 1e-9, 'model image with everything frozen')
    close_img(tr.getModelImage(0, srcs=[None] + list(tr.catalog)), tot[0], 1e-9, 'None in the source list')
    # asking did not change anything
    close(tr.getAllParams(), p0, rtol=0, atol=0, what='parameters after rendering')
    for im, d in zip(tr.images, d0):
        close(im.getImage(), d, rtol=0, atol=0, what='image data after rendering')


class World(object):
    """A Tractor plus the mirrored description."""
    def __init__(self, kinds):
        import tractor as T
        self.S = [scene.source(k, *POS[i], flux=[100., 40.][i % 2]) for i, k in enumerate(kinds)]
        self.I = imgs(2)
        self.tr = T.Tractor([scene.build_image(i) for i in self.I], [scene.build_source(s) for s in self.S])

    def check(self):
        close(self.tr.catalog.getAllParams(), [p for s in self.S for p in scene.params(s)], rtol=1e-12, atol=1e-12,
              what='source parameters')
        for i, im in enumerate(self.I):
            close_img(self.tr.getModelImage(i), scene.ref_image(self.S, im), tol(self.S, im), 'model image %d' % i)

    def setp(self, j, k, delta):
        p = scene.params(self.S[j])
        p[k] += delta
        self.S[j] = scene.with_params(self.S[j], p)
        src = self.tr.catalog[j]
        q = list(src.getAllParams())
        q[k] = q[k] + delta
        src.setAllParams(q)

    def do(self, op):
        tr = self.tr
        n = len(self.S)
        o = op[0]
        if o == 'set' and op[1] < n:
            self.setp(op[1], op[2], op[3])
        elif o == 'sky':
            self.I[0] = dict(self.I[0], sky=self.I[0]['sky'] + op[1])
            tr.images[0].sky.setParams([self.I[0]['sky']])
        elif o == 'zp':
            self.I[1] = dict(self.I[1], scale=self.I[1]['scale'] * op[1])
            tr.images[1].photocal.setParams([self.I[1]['scale']])
        elif o == 'psf':
            a, m, v = self.I[0]['psf']
            v = v.copy()
            v[0, 0, 0] += op[1]
            self.I[0] = dict(self.I[0], psf=(a, m, v))
            psf = tr.images[0].psf
            names = psf.getParamNames()
            p = psf.getParams()
            K = len(a)
            p[K + 2 * K] += op[1]       # first variance element
            psf.setParams(p)
        elif o == 'freeze' and n:
            tr.catalog.freezeParam(0)
        elif o == 'thaw':
            tr.catalog.thawAllParams()
        elif o == 'add' and n < 3:
            s = scene.source('gauss', 4., 7., flux=55.)
            self.S.append(s)
            tr.addSource(scene.build_source(s))
        elif o == 'remove' and n > 1:
            tr.removeSource(tr.catalog[0])
            self.S = self.S[1:]
        elif o == 'render':
            list(tr.getModelImages())
        elif o == 'derivs':
            tr.getDerivs()
        elif o == 'logprob':
            tr.getLogProb()
        elif o == 'chi':
            list(tr.getChiImages())
        elif o == 'masks':
            # restrict, render, and lift the restriction
            from tractor.patch import ModelMask
            tr.setModelMasks([dict((s, ModelMask(2, 2, 4, 5)) for s in tr.catalog) for im in tr.images])
            list(tr.getModelImages())
            tr.setModelMasks(None)
        elif o == 'vector':
            # push the whole vector back through the Tractor
            tr.setParams(tr.getParams())


OPS = [('set', 0, 0, .75), ('set', 0, 2, -30.), ('set', 1, 1, -1.25), ('set', 1, 3, .4), ('sky', 2.), ('zp', 1.5),
       ('psf', .6), ('freeze',), ('thaw',), ('add',), ('remove',), ('render',), ('derivs',), ('logprob',), ('masks',),
       ('vector',)]


def history(ck, kinds, seq):
    w = World(kinds)
    for op in seq:
        w.do(op)
        ck.step()
    w.check()
    ck.outcome(tuple(np.round(w.tr.getModelImage(0).sum(axis=0), 3)))


# -- interference: what one rendering leaves behind for another -----------

def gal(kind, re, e=(.1, -.05)):
    import tractor as T
    from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy, FixedCompositeGalaxy, CompositeGalaxy, SoftenedFracDev
    from tractor.sersic import SersicGalaxy, SersicIndex
    from tractor.ellipses import EllipseE
    pos, fl, sh = T.PixPos(7.3, 6.8), T.Flux(100.), EllipseE(re, *e)
    if kind == 'point':
        return T.PointSource(pos, fl)
    if kind == 'fixcomp':
        return FixedCompositeGalaxy(pos, fl, SoftenedFracDev(.4), sh, EllipseE(.7 * re, 0., .1))
    if kind == 'comp':
        return CompositeGalaxy(pos, fl, sh, T.Flux(30.), EllipseE(.7 * re, 0., .1))
    if kind == 'sersic':
        return SersicGalaxy(pos, fl, sh, SersicIndex(2.))
    if kind == 'devcore':
        from tractor.devcore import DevCoreGalaxy
        return DevCoreGalaxy(pos, fl, sh, T.Flux(30.))
    if kind == 'sercore':
        from tractor.sercore import SersicCoreGalaxy
        return SersicCoreGalaxy(pos, fl, sh, SersicIndex(2.), T.Flux(30.))
    return dict(exp=ExpGalaxy, dev=DevGalaxy, gauss=GaussianGalaxy)[kind](pos, fl, sh)


GKINDS = ['point', 'gauss', 'exp', 'dev', 'fixcomp', 'comp', 'sersic', 'devcore', 'sercore']


def gimg(psf):
    import tractor as T
    from tractor.basics import NullWCS
    return T.Image(data=np.zeros((14, 15)), inverr=np.ones((14, 15)), psf=psf, wcs=NullWCS(dx=.25),
                   photocal=T.LinearPhotoCal(2.), sky=T.ConstantSky(1.))


def interference(ck, pn, mkpsf, base):
    """
    base: the images of the probe sources, taken before anything else was rendered in this process.  Then every
    (kind, size) is rendered with derivatives on the same image object and on a new one; after each the probes must
    look exactly as they did.
    """
    import tractor as T
    img = gimg(mkpsf())
    for kind in GKINDS:
        for re in (SIZES if kind != 'point' else [1.]):
            for how in ('render', 'derivs', 'masked'):
                def one(kind=kind, re=re, how=how):
                    s = gal(kind, re)
                    for im in (img, gimg(mkpsf())):
                        tr = T.Tractor([im], [s])
                        if how == 'render':
                            tr.getModelImage(0)
                        elif how == 'derivs':
                            im.freezeAllParams()
                            tr.getDerivs()
                        else:
                            from tractor.patch import ModelMask
                            tr.setModelMasks([{s: ModelMask(5, 4, 7, 6)}])
                            tr.getModelImage(0)
                            tr.setModelMasks(None)
                    for q in GKINDS:
                        for w, im in (('the same image object', img), ('a new image object', gimg(mkpsf()))):
                            close_img(T.Tractor([im], [gal(q, 1.2)]).getModelImage(0), base[pn, q], 1e-9,
                                      'model of a %s source on %s' % (q, w))
                            ck.step()
                ck.case(dict(psf=pn, before=[kind, re, how]), one)


SIZES = [.3, .8, 1.5, 2.5, 4., 6., 9., 13.]


# -- observers in several bands ------------------------------------------

BANDS = [('nano', ['g', 'r']), ('nano', ['r', 'z']), ('mags', ['g', 'r'])]


def band_scene(kind, bt, bands, mkpsf):
    import tractor as T
    from tractor.basics import NullWCS
    from tractor.galaxy import ExpGalaxy
    vals = dict(zip(bands, [30., 50.] if bt == 'nano' else [18., 17.]))
    mk = (lambda: T.NanoMaggies(order=bands, **vals)) if bt == 'nano' else (lambda: T.Mags(order=bands, **vals))
    ims = []
    for b in bands:
        pc = T.LinearPhotoCal(1.5, band=b) if bt == 'nano' else T.MagsPhotoCal(b, 22.5)
        ims.append(T.Image(data=np.ones((14, 15)), inverr=np.ones((14, 15)), psf=mkpsf(), wcs=NullWCS(), photocal=pc,
                           sky=T.ConstantSky(1.), name=b))
    s = gal(kind, 1.4)
    if kind == 'comp':
        s.brightnessExp, s.brightnessDev = mk(), mk()
    elif kind == 'devcore':
        s.brightnessDev, s.brightnessPsf = mk(), mk()
    elif kind == 'sercore':
        s.brightness, s.brightnessPsf = mk(), mk()
    else:
        s.brightness = mk()
    other = T.PointSource(T.PixPos(3., 9.), mk())
    return T.Tractor(ims, [s, other])


def snap(tr):
    from mc.zoo import flags
    return (np.array(tr.getAllParams(), float), flags(tr), [np.array(im.getImage()) for im in tr.images],
            [np.array(im.getInvError()) for im in tr.images], [tr.getModelImage(i) for i in range(len(tr.images))])


OBSERVERS = dict(
    images=lambda tr: list(tr.getModelImages()), nosky=lambda tr: tr.getModelImage(0, sky=False),
    patches=lambda tr: [tr.getModelPatch(im, s) for im in tr.images for s in tr.catalog],
    derivs=lambda tr: tr.getDerivs(), chi=lambda tr: list(tr.getChiImages()), logprob=lambda tr: tr.getLogProb(),
    likelihood=lambda tr: tr.getLogLikelihood(),
    srcderivs=lambda tr: [s.getParamDerivatives(im) for im in tr.images for s in tr.catalog],
    unit=lambda tr: [s.getUnitFluxModelPatch(im) if hasattr(s, 'getUnitFluxModelPatch') else s.getUnitFluxModelPatches(im)
                     for im in tr.images for s in tr.catalog],
    names=lambda tr: (tr.getParamNames(), tr.getStepSizes(), tr.getLowerBounds(), tr.getUpperBounds(), tr.getMaxStep(),
                      tr.getLogPriorDerivatives()))


def observers(ck, kind, pn, mkpsf, bt, bands, freeze, seq):
    tr = band_scene(kind, bt, bands, mkpsf)
    if freeze == 'images':
        tr.freezeParam('images')
    elif freeze == 'first':
        tr.catalog[0].freezeParams(tr.catalog[0].getParamNames()[0].split('.')[0])
    elif freeze == 'shape':
        tr.freezeParam('images')
        tr.catalog[0].freezeAllBut(dict(comp='brightnessExp', devcore='brightnessDev').get(kind, 'brightness'))
    a = snap(tr)
    for o in seq:
        OBSERVERS[o](tr)
        ck.step()
        b = snap(tr)
        for x, y, w in zip(a, b, ['parameters', 'freeze flags', 'image data', 'inverse errors', 'model images']):
            if w == 'freeze flags':
                same(y, x, '%s after asking for %s' % (w, o))
            else:
                for xi, yi in zip(x, y):
                    close(yi, xi, rtol=0, atol=0, what='%s after asking for %s' % (w, o))
    ck.outcome(round(float(b[-1][0].sum()), 3))


# -- a constant surface brightness ---------------------------------------

def check_const(ck, wname, bt, band, mask, frozen):
    import tractor as T
    from tractor.basics import NullWCS, ConstantSurfaceBrightness
    from tractor.wcs import TanWcs
    from tractor.patch import ModelMask
    from mc.zoo import tan, dense
    bands = ['g', 'r', 'z']
    if bt == 'flux':
        br, val = T.Flux(3.), dict(g=3., r=3., z=3.)
        pc = T.LinearPhotoCal(1.5)
    elif bt == 'nano':
        val = dict(g=3., r=-2., z=.25)
        br, pc = T.NanoMaggies(order=bands, **val), T.LinearPhotoCal(1.5, band=band)
    else:
        val = dict((b, 10.**(-.4 * (m - 22.5)) / 1.5) for b, m in dict(g=21., r=20.5, z=23.).items())
        br, pc = T.Mags(order=bands, g=21., r=20.5, z=23.), T.MagsPhotoCal(band, 22.5)
    wcs, ps = dict(null=(NullWCS(), 1.), scaled=(NullWCS(pixscale=.7), .7),
                   tan=(TanWcs(tan(crval=(10., 50.), w=15, h=14, rot=25.)), None))[wname]
    if ps is None:
        ps = np.sqrt(np.abs(np.linalg.det(wcs.cdAtPixel(7., 7.)))) * 3600.
    im = T.Image(data=np.zeros((14, 15)), inverr=np.ones((14, 15)), psf=T.NCircularGaussianPSF([1.5], [1.]), wcs=wcs, photocal=pc,
                 sky=T.ConstantSky(2.))
    s = ConstantSurfaceBrightness(br)
    tr = T.Tractor([im], [s])
    x0, y0, w, h = mask or (0, 0, 15, 14)
    if mask:
        tr.setModelMasks([{s: ModelMask(x0, y0, w, h)}])
    want = np.zeros((14, 15))
    want[y0:y0 + h, x0:x0 + w] = 1.5 * val[band] * ps**2
    close_img(tr.getModelImage(0), want + 2., 1e-4 * np.abs(want).max(), 'constant surface brightness')
    im.freezeAllParams()
    if frozen == 'all':
        s.freezeAllParams()
    elif frozen:
        s.brightness.freezeParam(frozen)
    D = tr.getDerivs()
    thawed = [] if frozen == 'all' else [b for b in (bands if bt != 'flux' else ['flux']) if b != frozen]
    same(len(D), len(thawed), 'number of derivatives')
    for b, d in zip(thawed, D):
        got = np.zeros((14, 15))
        for p, i in d:
            got += dense(p, (0, 15, 0, 14))
        f = want / val[band] if bt == 'nano' else want / 3. if bt == 'flux' else -.4 * np.log(10.) * want
        if b not in ('flux', band):
            f = 0. * f
        close_img(got, f, 2e-2 * (np.abs(f).max() + 1e-9), 'd/d(%s)' % b)
    ck.step()


# -- extended sources on images of every shape ---------------------------

EPSF = (np.array([.75, .25]), np.array([[0., 0.], [0., 0.]]), np.array([[[2.4, .3], [.3, 2.]], [[5., -.5], [-.5, 6.]]]))
EXT_PSFS = ['gmix', 'pix', 'tall', 'wide', 'hybrid', 'hybtall']
EXT_SHAPES = [(64, 64), (100, 30), (30, 100), (24, 22), (130, 140)]
EXT_POS = [(12., 15.), (14.3, 10.8), (3.4, 9.), (27.7, 96.2), (95.6, 27.), (-3., 20.), (21., -2.4), (66.2, 70.7), (64.9, 11.)]


def ext_psf(name):
    import tractor as T
    from mc import ref
    from tractor.psf import HybridPixelizedPSF
    gm = T.GaussianMixturePSF(*[a.copy() for a in EPSF])
    if name == 'gmix':
        return gm
    h, w = dict(tall=(31, 21), wide=(21, 31), hybtall=(31, 21)).get(name, (23, 23))
    g = ref.gauss_sum(*EPSF, np.arange(w) - w // 2, np.arange(h) - h // 2)
    pix = T.PixelizedPSF((g / g.sum()).astype(np.float32))
    return HybridPixelizedPSF(pix, gm) if name.startswith('hyb') else pix


def ext_comps(kind, re, frac, e=(.3, -.2)):
    """[(weight, profile, shape)] for scene.comps-like sources, with the fraction as the plain class defines it."""
    s = scene.source(kind, flux=1., flux2=.6, shape=(re,) + tuple(e), shape2=(.6 * re, -.2, .1))
    if kind != 'fixcomp':
        return s, scene.comps(s)
    from mc import ref
    f = min(max(frac, 0.), 1.)
    return s, [(1. - f, 'exp', ref.ellipse_basis(*s['shape'])), (f, 'dev', ref.ellipse_basis(*s['shape2']))]


def check_extended(ck, kind, re, frac, pn, shape, pos, wname, e=(.3, -.2)):
    import tractor as T
    from mc import ref
    from tractor.basics import NullWCS
    from tractor.galaxy import FracDev
    H, W = shape
    s, comps = ext_comps(kind, re, frac, e)
    if wname == 'flat':
        wcs, cdinv, p = NullWCS(), np.eye(2) * 3600., T.PixPos(*pos)
    else:
        from mc.p08 import bent_wcs
        wcs = bent_wcs()
        cdinv = np.linalg.inv(wcs.cdAtPixel(*pos))
        p = wcs.pixelToPosition(*pos)
    src = scene.build_source(s)
    src.pos = p
    if kind == 'fixcomp':
        src.fracDev = FracDev(frac)
    im = T.Image(data=np.zeros(shape), inverr=np.ones(shape), psf=ext_psf(pn), wcs=wcs, photocal=T.LinearPhotoCal(3.),
                 sky=T.ConstantSky(0.))
    m = T.Tractor([im], [src]).getModelImage(0)
    R = 3. * ref.unit_source(comps, pos[0], pos[1], EPSF, cdinv, (0, W, 0, H))
    peak = 3. * ref.unit_source(comps, pos[0], pos[1], EPSF, cdinv, (int(pos[0]), int(pos[0]) + 1, int(pos[1]), int(pos[1]) + 1)).max()
    ck.step()
    whole = pos[0] == int(pos[0]) and pos[1] == int(pos[1])
    # what is drawn is the convolution of the profile and the PSF (a pixelised PSF is shifted by interpolation)
    tol = (1e-3 if pn == 'gmix' else 8e-3 if not whole else 5e-4 if pn.startswith('hyb') and wname == 'flat' else 2e-3) * peak
    close_img(m[m != 0], R[m != 0], tol, 'light of a %s of size %g' % (kind, re))
    # and nothing that matters is left out
    if R.max() > .02 * peak:
        expect(np.any(m != 0), 'nothing drawn')
        expect(R[m == 0].sum() < .01 * R.sum(), '%.3g of the light in the image is not drawn', R[m == 0].sum() / R.sum())
    inside = 3 < pos[0] < W - 4 and 3 < pos[1] < H - 4
    if inside:
        # (without a mixture to fall back on, the far wings of a large galaxy wrap around)
        expect(abs(m.sum() - R.sum()) < (2e-2 if re > 2 and pn in ('pix', 'tall', 'wide') else 4e-3) * R.sum(), 'total light %.5g, expected %.5g', m.sum(), R.sum())
    ck.outcome((kind, pn, round(float(m.sum()), 3)))


def extended(sub, k):
    shape = EXT_SHAPES[k % len(EXT_SHAPES)]
    pos = EXT_POS[k // len(EXT_SHAPES)]
    sub.section('extended', '%d kinds of source (plain fractions from -.3 to 1.2) x %d sizes x %d PSFs x %d image shapes x %d positions, '
                'flat and bent projections' % (len(EXT_KINDS), len(EXT_SIZES), len(EXT_PSFS), len(EXT_SHAPES), len(EXT_POS)))
    for kind, frac in EXT_KINDS:
        for re in (EXT_SIZES if kind != 'point' else [1.]):
            for pn in EXT_PSFS:
                for wn in ['flat'] + (['bent'] if k // len(EXT_SHAPES) < 2 and re <= 1 else []):
                    sub.case(dict(extended=kind, frac=frac, size=re, psf=pn, shape=shape, pos=pos, wcs=wn), check_extended, sub,
                             kind, re, frac, pn, shape, pos, wn)
    if (pos[0] == int(pos[0]) and pos[1] == int(pos[1])) or sub.thorough:
        for kind, re, e, pn in itertools.product(('gauss', 'exp', 'dev'), (5., 9., 15., 22.), ((.6, 0.), (-.6, 0.), (0., .6), (0., -.6)), ('gmix', 'hybrid')):
            sub.case(dict(extended=kind, size=re, ellipticity=e, psf=pn, shape=shape, pos=pos), check_extended, sub, kind, re, 0., pn, shape,
                     pos, 'flat', e)


EXT_KINDS = [(k, 0.) for k in ['point', 'gauss', 'exp', 'dev', 'comp', 'devcore', 'sercore', 'expsoft']] + \
    [('fixcomp', f) for f in (-.3, 0., .25, 1., 1.2)]
EXT_SIZES = [.3, 1., 2., 3., 5., 9.]


def run(ck):
    ck.shards(range(len(EXT_SHAPES) * len(EXT_POS)), extended)
    ck.section('surface brightness', '3 WCS x 3 brightness types x bands x masks x frozen bands')
    for wn, bt, b, m in itertools.product(('null', 'scaled', 'tan'), ('flux', 'nano', 'mags'), 'grz', (None, (2, 3, 5, 7), (0, 9, 15, 5))):
        for fr in ('', 'all') + (('g', 'r', 'z') if bt != 'flux' else ()):
            ck.case(['const', wn, bt, b, m, fr], check_const, ck, wn, bt, b, m, fr)
    from mc.p07 import psfs
    P = psfs()

    def shardC(sub, k):
        import tractor as T
        pn, mk = P[k]
        base = {}

        def first():
            for q in GKINDS:
                base[pn, q] = T.Tractor([gimg(mk())], [gal(q, 1.2)]).getModelImage(0)
                expect(base[pn, q].max() > 1.5, 'nothing rendered')
        sub.section('interference', 'probe images of every kind of source unchanged after rendering / differentiating / '
                    'masking every kind at %d sizes, per PSF kind' % len(SIZES))
        sub.case(dict(psf=pn, probes='first'), first)
        if len(base) == len(GKINDS):
            interference(sub, pn, mk, base)
        sub.section('observers', 'two bands: every source kind x PSF kind x brightness kind x freeze pattern x sequence of '
                    'up to 2 observers')
        names = sorted(OBSERVERS)
        for kind in GKINDS:
            for bt, bands in BANDS:
                for fr in ['none', 'images', 'first', 'shape']:
                    seqs = [(a,) for a in names]
                    if fr == 'none' and pn in ('gmix', 'hybrid') or sub.thorough:
                        seqs = [(a, b) for a in names for b in names]
                    for seq in seqs:
                        sub.case(dict(src=kind, psf=pn, bands=[bt, bands], freeze=fr, seq=seq), observers, sub, kind, pn, mk,
                                 bt, bands, fr, seq)
    ck.shards(range(len(P)), shardC)
    N = 3 if ck.thorough else 2
    lists = [()]
    for n in range(1, N + 1):
        lists += list(itertools.product(scene.KINDS, repeat=n))
    lists += [(k,) for k in scene.CORES] + [(a, b) for k in scene.CORES for a, b in ((k, 'point'), ('exp', k), (k, k))]
    if not ck.thorough:
        lists += [('point', 'exp', 'point'), ('dev', 'fixcomp', 'comp'), ('gauss', 'point', 'exp')]

    def shardA(sub, k):
        sub.section('lists', 'all ordered lists of up to %d sources over %d kinds x %d start positions x %d images' % (
            N, len(scene.KINDS), len(POS), 3))
        for i, ks in enumerate(lists):
            if i % 16 != k:
                continue
            for posi in range(len(POS)):
                if len(ks) == 3 and sub.thorough and posi % 3:
                    continue
                sub.case([ks, posi], check_list, sub, ks, posi, imgs(3))
    ck.shards(range(16), shardA)

    depth = 4 if ck.thorough else 3
    starts = [('point', 'exp'), ('fixcomp', 'dev')]

    def shardB(sub, k):
        sub.section('histories', 'all operation sequences of length %d over %d operations, from %d scenes' % (
            depth, len(OPS), len(starts)))
        a = OPS[k]
        for kinds in starts[:1] if sub.thorough and False else starts:
            for rest in itertools.product(OPS, repeat=depth - 1):
                if depth == 4 and kinds == starts[1] and rest[-1] not in OPS[:7]:
                    continue
                seq = (a,) + rest
                sub.case([kinds, seq], history, sub, kinds, seq)
    ck.shards(range(len(OPS)), shardB)
    ck.assumptions += ['Gaussian-mixture PSFs (pixelised PSFs: P16), flat WCS (celestial: P19); agreement to 3e-5 of the total flux',
                       'the reference renderer is an independent numpy evaluation of the published mixture profiles']
