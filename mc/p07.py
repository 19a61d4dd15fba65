"""
P07: rendering through a model mask.  For every source kind x PSF kind x mask
rectangle (and every boolean pattern of a small block) the masked rendering has
exactly the mask's footprint and, at the requested pixels, the values of the
unrestricted rendering; at the Tractor level only the masked pixels of the
sources that have a mask are touched.
"""
import itertools
import numpy as np
from mc import scene
from mc.zoo import dense, psfex_model
from mc.core import expect, fail, close, close_img, same

BIG = (-9, 24, -9, 24)


def psf_stamp(n=11, sigma=None):
    # compact enough that nothing is left at the edge of the stamp
    from mc.core import texture
    if sigma is None:
        sigma = n / 11.
    y, x = np.mgrid[:n, :n] - n // 2
    g = np.exp(-0.5 * (x**2 + 1.1 * y**2 + 0.2 * x * y) / sigma**2)
    g = g * (1. + 0.05 * texture((n, n), 5))
    return (g / g.sum()).astype(np.float32)


def psfex():
    from tractor.psfex import PixelizedPsfEx
    m = psfex_model(2, n=11)
    b = psf_stamp(11)
    from mc.core import texture
    m.psfbases = np.array([b] + [.1 * b * texture((11, 11), 40 + i) for i in range(5)]).astype(np.float32)
    return PixelizedPsfEx(None, psfex=m)


def psfs():
    import tractor as T
    from tractor.psf import HybridPixelizedPSF, NormalizedPixelizedPsf, GaussianMixtureEllipsePSF
    from tractor.ellipses import EllipseESoft
    gm = lambda: T.GaussianMixturePSF(*[a.copy() for a in scene.PSF2])
    return [
        ('gmix', gm),
        ('ncirc', lambda: T.NCircularGaussianPSF([1.2, 2.], [.8, .2])),
        ('ellmix', lambda: GaussianMixtureEllipsePSF(np.array([.7, .3]), np.array([[0., 0.], [.3, -.2]]),
                                                     [EllipseESoft(.3, .1, .2), EllipseESoft(.7, -.3, .1)])),
        ('pix', lambda: T.PixelizedPSF(psf_stamp(11))),
        ('pixsmall', lambda: T.PixelizedPSF(psf_stamp(5))),
        ('pixover', lambda: T.PixelizedPSF(psf_stamp(15), sampling=.6)),
        ('hybrid', lambda: HybridPixelizedPSF(T.PixelizedPSF(psf_stamp(11)), gm())),
        ('psfex', psfex),
    ]


def tall_stamp(h, w):
    y, x = np.mgrid[:h, :w]
    g = np.exp(-0.5 * (((x - w // 2) * 11. / w)**2 + ((y - h // 2) * 11. / h)**2))
    return (g / g.sum()).astype(np.float32)


def allpsfs():
    import tractor as T
    return psfs() + [('pixtall', lambda: T.PixelizedPSF(tall_stamp(37, 13))), ('pixwide', lambda: T.PixelizedPSF(tall_stamp(13, 37)))]


MOG = ('gmix', 'ncirc', 'ellmix')
GALS = ['gauss', 'exp', 'dev', 'fixcomp', 'comp', 'devcore', 'sercore']
# rendering a galaxy under a pixelised PSF goes through a discrete Fourier transform whose size depends on the mask: the
# wings of the profile wrap around.  Tolerance per unit flux and profile:
FTOL = dict(point=2e-6, gauss=2e-5, exp=3e-4, dev=6e-3, fixcomp=4e-3, comp=6e-3, devcore=6e-3, sercore=6e-3)


def mkimg(psf, minval=0.):
    import tractor as T
    from tractor.basics import NullWCS
    im = T.Image(data=np.zeros((12, 13)), inverr=np.ones((12, 13)), psf=psf, wcs=NullWCS(dx=.25),
                 photocal=T.LinearPhotoCal(2.), sky=T.ConstantSky(0.))
    im.modelMinval = minval
    return im


def mksrc(kind, pos=(6.3, 5.8)):
    return scene.build_source(scene.source(kind, *pos, flux=100., shape=(.9, .25, -.15), shape2=(.6, -.2, .1)))


def flux(kind):
    return 2. * (160. if kind in scene.TWO else 100.)


def base(kind, psfname, make, pos):
    """Unrestricted values over BIG."""
    from tractor.patch import ModelMask
    p = mksrc(kind, pos).getModelPatch(mkimg(make()), modelMask=ModelMask(BIG[0], BIG[2], BIG[1] - BIG[0], BIG[3] - BIG[2]))
    expect(p is not None, 'masked rendering over a huge region returned nothing')
    same((p.x0, p.y0) + p.patch.shape, (BIG[0], BIG[2], BIG[3] - BIG[2], BIG[1] - BIG[0]), 'footprint')
    return dense(p, BIG)


def tol(kind, psfname):
    if psfname in MOG:
        return 3e-6 * flux(kind)
    if psfname == 'pixsmall' and kind != 'point':
        # tiny transforms of an undersampled PSF
        return max(FTOL[kind], 3e-3) * flux(kind)
    return FTOL[kind] * flux(kind)


def check_unmasked(ck, kind, psfname, make, pos, B):
    """The unrestricted rendering itself (clipped to the image) has these values wherever it is non-zero."""
    img = mkimg(make())
    p = mksrc(kind, pos).getModelPatch(img)
    H, W = img.shape
    if p is None:
        fail('no patch')
    x0, x1, y0, y1 = p.getExtent()
    h = dense(p, BIG)
    w = np.zeros(h.shape, bool)
    w[max(y0, 0) - BIG[2]:min(y1, H) - BIG[2], max(x0, 0) - BIG[0]:min(x1, W) - BIG[0]] = True
    close_img(h[w], B[w], tol(kind, psfname) * (1 if psfname in MOG or kind == 'point' else 3), 'unmasked vs masked rendering')
    if psfname == 'gmix':
        full = np.zeros(h.shape, bool)
        full[-BIG[2]:H - BIG[2], -BIG[0]:W - BIG[0]] = True
        expect(np.all(w[full]), 'unmasked rendering does not cover the image')
    # what is left out is small
    full = np.zeros(h.shape, bool)
    full[-BIG[2]:H - BIG[2], -BIG[0]:W - BIG[0]] = True
    lost = np.abs(B[full & ~w]).max() if np.any(full & ~w) else 0.
    expect(lost < (1e-2 if psfname == 'pixsmall' else 2e-3) * flux(kind), 'unmasked rendering leaves out pixels of value %g', lost)
    ck.step(2)


def check_rect(ck, kind, psfname, make, pos, B, rect, reuse, minval=0.):
    from tractor.patch import ModelMask
    x0, x1, y0, y1 = rect
    img, src = reuse
    img.modelMinval = minval
    p0 = list(src.getAllParams())
    mm = ModelMask(x0, y0, x1 - x0, y1 - y0)
    p = src.getModelPatch(img, modelMask=mm)
    sub = B[y0 - BIG[2]:y1 - BIG[2], x0 - BIG[0]:x1 - BIG[0]]
    if p is None:
        # (beyond the PSF stamp: only the interpolation wings)
        expect(np.abs(sub).max() <= max(tol(kind, psfname), 4e-4 * flux(kind) if psfname not in MOG else 0.), 'nothing rendered in the mask, expected up to %g', np.abs(sub).max())
    else:
        same((p.x0, p.y0) + tuple(p.patch.shape), (x0, y0, y1 - y0, x1 - x0), 'footprint of the masked rendering')
        close_img(p.patch, sub, tol(kind, psfname), 'masked rendering')
    close(src.getAllParams(), p0, what='parameters after rendering')
    same((mm.x0, mm.y0, mm.w, mm.h), (x0, y0, x1 - x0, y1 - y0), 'the mask itself')
    ck.outcome((psfname, kind, None if p is None else round(float(p.patch.sum()), 3)))
    ck.step()


def check_bool(ck, kind, psfname, make, pos, B, rect, bits, reuse, minval=0.):
    from tractor.patch import ModelMask
    x0, x1, y0, y1 = rect
    img, src = reuse
    img.modelMinval = minval
    m = np.array(bits, bool).reshape((y1 - y0, x1 - x0))
    m0 = m.copy()
    p = src.getModelPatch(img, modelMask=ModelMask(x0, y0, m))
    expect(p is not None, 'nothing rendered in the mask')
    same((p.x0, p.y0) + tuple(p.patch.shape), (x0, y0, y1 - y0, x1 - x0), 'footprint of the masked rendering')
    sub = B[y0 - BIG[2]:y1 - BIG[2], x0 - BIG[0]:x1 - BIG[0]]
    t = tol(kind, psfname) + 2e-6 * flux(kind)
    close_img(p.patch[m], sub[m], t, 'requested pixels')
    off = np.array(p.patch, float)[~m]
    # not requested: unspecified, but somewhere between nothing and the true value
    o = sub[~m]
    expect(np.all((off >= np.minimum(o, 0) - t) & (off <= np.maximum(o, 0) + t)), 'unrequested pixels hold garbage')
    expect(np.all(m == m0), 'the mask itself was changed')
    ck.outcome((psfname, kind, round(float(p.patch.sum()), 3)))
    ck.step()


def rects(containing, thorough):
    if containing:
        xs0, xs1 = ([-8, -2, 0, 3, 6], [8, 9, 10, 13, 22]) if thorough else ([-8, 0, 4, 6], [8, 9, 13, 20])
        ys0, ys1 = ([-8, -1, 0, 2, 5], [7, 8, 9, 12, 22]) if thorough else ([-5, 0, 5], [7, 8, 12, 21])
        return [(a, b, c, d) for a in xs0 for b in xs1 for c in ys0 for d in ys1]
    out = []
    for a, b in [(0, 3), (8, 10), (3, 12), (-6, 0), (12, 20), (6, 7)]:
        for c, d in [(0, 3), (7, 9), (2, 11), (-6, 1), (11, 20), (5, 6)]:
            out.append((a, b, c, d))
    return out


def tractor_level(ck, kinds, have, assume, rs):
    import tractor as T
    from tractor.patch import ModelMask
    I = scene.image(sky=1.5, scale=2., dx=.25)
    S = [scene.source(k, *[(6.3, 5.8), (3., 8.), (9., 2.)][i]) for i, k in enumerate(kinds)]
    tr = T.Tractor([scene.build_image(I)], [scene.build_source(s) for s in S])
    masks = {}
    H, W = I['shape']
    R = np.zeros((H, W)) + 1.5
    for i, s in enumerate(S):
        r = scene.ref_source(s, I)
        if have[i]:
            x0, x1, y0, y1 = rs[i]
            masks[tr.catalog[i]] = ModelMask(x0, y0, x1 - x0, y1 - y0)
            w = np.zeros((H, W))
            w[max(y0, 0):max(0, y1), max(0, x0):max(0, x1)] = 1
            R += r * w
        elif not assume:
            R += r
    tr.setModelMasks([masks], assumeMasks=assume)
    close_img(tr.getModelImage(0), R, 3e-2, 'model image under masks')
    tr.setModelMasks(None)
    close_img(tr.getModelImage(0), scene.ref_image(S, I), 3e-2, 'model image after lifting the masks')
    ck.step(2)
    ck.outcome(round(float(R.sum()), 3))


# -- sources of a fixed size ---------------------------------------------------

def part(kind, psfname, make, pos, which):
    """Unrestricted values over BIG of the galaxy (0) or of the core (1) of a source."""
    from tractor.patch import ModelMask
    src = mksrc(kind, pos)
    src.getBrightnesses()[1 - which].setParams([0.])
    p = src.getModelPatch(mkimg(make()), modelMask=ModelMask(BIG[0], BIG[2], BIG[1] - BIG[0], BIG[3] - BIG[2]))
    return dense(p, BIG)


def check_size(ck, kind, psfname, make, pos, B, h):
    """A source given a fixed size: that box of the unrestricted rendering, in the model, the unit-flux models and the derivatives."""
    from tractor.patch import ModelMask
    img, src = mkimg(make()), mksrc(kind, pos)
    H, W = img.shape
    px, py = img.getWcs().positionToPixel(src.getPosition(), src)
    src.halfsize = h
    core = kind in scene.CORES
    t = tol(kind, psfname) * (1 if psfname in MOG else 3)

    def inner(p, what):
        # the patch: the pixels within h of the centre, give or take one on each side
        x0, x1, y0, y1 = p.getExtent()
        g = h - 1
        expect(x0 <= max(0, np.ceil(px - g)) and x1 > min(W - 1, np.floor(px + g)) and y0 <= max(0, np.ceil(py - g)) and y1 > min(H - 1, np.floor(py + g)),
               '%s: the patch %s does not cover %g pixels around (%g, %g)' % (what, (x0, x1, y0, y1), h, px, py))
        expect(x0 >= max(0, np.floor(px - h) - 1) and x1 <= min(W, np.ceil(px + h) + 3) and y0 >= max(0, np.floor(py - h) - 1) and y1 <= min(H, np.ceil(py + h) + 3),
               '%s: the patch %s is larger than %g pixels around (%g, %g)' % (what, (x0, x1, y0, y1), h, px, py))
        w = np.zeros(B.shape, bool)
        w[y0 - BIG[2]:y1 - BIG[2], x0 - BIG[0]:x1 - BIG[0]] = True
        return w
    units = src.getUnitFluxModelPatches(img)
    counts = [2. * b.getValue() for b in src.getBrightnesses()] if kind in scene.TWO else [2. * src.getBrightness().getValue()]
    same(len(units), len(counts), 'number of unit-flux models')
    p = src.getModelPatch(img)
    if all(u is None for u in units):
        expect(p is None or not np.any(p.patch), 'a model, but no unit-flux model')
        return
    expect(p is not None, 'a unit-flux model, but no model')
    got = dense(p, BIG)
    close_img(got, sum(c * dense(u, BIG) for c, u in zip(counts, units) if u is not None), 1e-5 * sum(counts), 'model vs unit-flux models')
    if core:
        G, C = part(kind, psfname, make, pos, 0), part(kind, psfname, make, pos, 1)
        if units[0] is not None:
            w = inner(units[0], 'galaxy')
            close_img((counts[0] * dense(units[0], BIG))[w], G[w], t, 'the galaxy inside its size')
        inside = np.zeros(B.shape, bool)
        inside[-BIG[2]:H - BIG[2], -BIG[0]:W - BIG[0]] = True
        close_img((counts[1] * dense(units[1], BIG))[inside], C[inside], t + 4e-4 * counts[1], 'the core')
    else:
        for u in [p] + list(units):
            w = inner(u, 'model')
        close_img(got[w], B[w], t, 'the model inside its size')
        # a mask says where to render, whatever the size
        r = (2, 11, 1, 12)
        if r[0] <= px < r[1] - 1 and r[2] <= py < r[3] - 1:
            m = src.getModelPatch(img, modelMask=ModelMask(r[0], r[2], r[1] - r[0], r[3] - r[2]))
            close_img(dense(m, r), B[r[2] - BIG[2]:r[3] - BIG[2], r[0] - BIG[0]:r[1] - BIG[0]], t, 'the masked model of a source of fixed size')
        # derivatives: as through a mask over the same box
        x0, x1, y0, y1 = p.getExtent()
        if x0 <= px < x1 and y0 <= py < y1 and psfname in MOG:
            d = src.getParamDerivatives(img)
            dm = src.getParamDerivatives(img, modelMask=ModelMask(x0, y0, x1 - x0, y1 - y0))
            same(len(d), len(dm), 'number of derivatives')
            for k, (a, b) in enumerate(zip(d, dm)):
                expect((a is None) == (b is None), 'derivative %d given with and without a mask' % k)
                if a is None:
                    continue
                e = a.getExtent()
                expect(e[0] >= x0 and e[1] <= x1 and e[2] >= y0 and e[3] <= y1, 'derivative %d reaches beyond the size of the source' % k)
                close_img(dense(a, BIG), dense(b, BIG), 1e-5 * (1. + np.abs(b.patch).max()) + t * 10, 'derivative %d' % k)
    ck.step(4)
    ck.outcome((psfname, kind, round(float(got.sum()), 2)))


def check_radius(ck, psfname, make, pos, B, h):
    """A point source of fixed radius: that part of the unrestricted rendering."""
    from tractor.patch import ModelMask
    img, src = mkimg(make()), mksrc('point', pos)
    H, W = img.shape
    px, py = img.getWcs().positionToPixel(src.getPosition(), src)
    src.fixedRadius = h
    p = src.getModelPatch(img)
    reach = min(px + h, W - 1 - px + h, py + h, H - 1 - py + h)
    if p is None or p.patch is None:
        expect(reach < 1, 'no model for a star whose disk reaches %g pixels into the image' % reach)
        return
    x0, x1, y0, y1 = p.getExtent()
    R = np.ceil(h) + 1
    expect(x0 >= np.floor(px - R) and x1 <= np.ceil(px + R) + 1 and y0 >= np.floor(py - R) and y1 <= np.ceil(py + R) + 1,
           'the patch %s is larger than %g pixels around (%g, %g)' % ((x0, x1, y0, y1), h, px, py))
    got = dense(p, BIG)
    # (the shift of a cropped stamp reaches three pixels in)
    g = h if psfname in MOG else h - 4
    yy, xx = np.mgrid[BIG[2]:BIG[3], BIG[0]:BIG[1]]
    w = (np.abs(xx - px) <= g) & (np.abs(yy - py) <= g) & (xx >= 0) & (xx < W) & (yy >= 0) & (yy < H)
    if psfname not in MOG:
        # (without a mask, a stamp keeps its size)
        e = mksrc('point', pos).getModelPatch(img).getExtent()
        w &= (xx >= e[0]) & (xx < e[1]) & (yy >= e[2]) & (yy < e[3])
    close_img(got[w], B[w], tol('point', psfname) + (1e-3 * flux('point') if psfname not in MOG else 0.), 'the star inside its radius')
    u = src.getUnitFluxModelPatches(img)
    same(len(u), 1, 'number of unit-flux models')
    close_img(got, 200. * dense(u[0], BIG), 1e-4, 'model vs unit-flux model')
    m = src.getModelPatch(img, modelMask=ModelMask(2, 1, 9, 11))
    if m is not None:
        same((m.x0, m.y0) + tuple(m.patch.shape), (2, 1, 11, 9), 'footprint of the masked rendering')
        wm = w & (xx >= 2) & (xx < 11) & (yy >= 1) & (yy < 12)
        close_img(dense(m, BIG)[wm], B[wm], tol('point', psfname) + (1e-3 * flux('point') if psfname not in MOG else 0.), 'the masked star inside its radius')
    else:
        expect(not np.any(w[1 - BIG[2]:12 - BIG[2], 2 - BIG[0]:11 - BIG[0]]), 'no masked model of a star inside the mask')
    ck.step(3)
    ck.outcome((psfname, round(float(got.sum()), 2)))


# -- elongated masks under pixelised PSFs -----------------------------------

def ext_setup(pn, make, pos):
    """A big smooth galaxy and its unrestricted values around it."""
    import tractor as T
    from tractor.galaxy import GaussianGalaxy
    from tractor.ellipses import EllipseE
    from tractor.patch import ModelMask
    from tractor.basics import NullWCS
    img = T.Image(data=np.zeros((60, 70)), inverr=np.ones((60, 70)), psf=make(), wcs=NullWCS(), photocal=T.LinearPhotoCal(1.),
                  sky=T.ConstantSky(0.))
    src = GaussianGalaxy(T.PixPos(*pos), T.Flux(1000.), EllipseE(12., .1, -.05))
    R = 110
    cx, cy = int(pos[0]), int(pos[1])
    p = src.getModelPatch(img, modelMask=ModelMask(cx - R, cy - R, 2 * R + 1, 2 * R + 1))
    return img, src, cx, cy, R, np.array(p.patch)


def check_elongated(ck, setup, ext):
    from tractor.patch import ModelMask
    img, src, cx, cy, R, B = setup
    l, r, d, u = ext
    mm = ModelMask(cx - l, cy - d, l + r + 1, d + u + 1)
    p = src.getModelPatch(img, modelMask=mm)
    same((p.x0, p.y0) + tuple(p.patch.shape), (cx - l, cy - d, d + u + 1, l + r + 1), 'footprint of the masked rendering')
    # the transform must reach the farthest pixel of the mask: only what lies beyond may wrap around
    h = max(l, r, d, u, 7)
    y, x = np.mgrid[-R:R + 1, -R:R + 1]
    far = np.maximum(np.abs(x), np.abs(y)) >= .9 * h
    t = 3. * np.abs(B[far]).max() + 1e-3
    close_img(p.patch, B[R - d:R + u + 1, R - l:R + r + 1], t, 'masked rendering')
    ck.step()
    ck.outcome(round(float(p.patch.sum()), 2))


# -- histories of setModelMasks -----------------------------------------------

def mask_history(ck, kinds, seq):
    """seq: for each step None (lifted) or (which sources have a mask and of which shape, required?)"""
    import tractor as T
    from tractor.patch import ModelMask
    Is = [scene.image(sky=1.5, scale=2., dx=.25, seed=1), scene.image(shape=(10, 14), psf=scene.PSF1, sky=-1., dy=.5, seed=2)]
    S = [scene.source(k, *[(6.3, 5.8), (3., 8.)][i]) for i, k in enumerate(kinds)]
    tr = T.Tractor([scene.build_image(I) for I in Is], [scene.build_source(s) for s in S])
    refs = [[scene.ref_source(s, I) for s in S] for I in Is]
    for op in seq:
        if op is None:
            tr.setModelMasks(None)
        else:
            rs, need = op
            masks = []
            for k in range(len(Is)):
                m = {}
                for s, r in zip(tr.catalog, rs):
                    if r is not None:
                        x0, x1, y0, y1 = r
                        m[s] = ModelMask(x0 + k, y0, x1 - x0, y1 - y0)
                masks.append(m)
            if need is None:
                tr.setModelMasks(masks)
            else:
                tr.setModelMasks(masks, assumeMasks=need)
        ck.step()
        for k, I in enumerate(Is):
            H, W = I['shape']
            R = np.zeros((H, W)) + I['sky']
            for i in range(len(S)):
                if op is None:
                    R += refs[k][i]
                elif op[0][i] is not None:
                    x0, x1, y0, y1 = op[0][i]
                    x0, x1 = x0 + k, x1 + k
                    w = np.zeros((H, W))
                    w[max(y0, 0):max(0, y1), max(0, x0):max(0, x1)] = 1
                    R += refs[k][i] * w
                elif op[1] is False:
                    R += refs[k][i]
            close_img(tr.getModelImage(k), R, 3e-2, 'model image %d' % k)
        ck.outcome(round(float(R.sum()), 3))


MENU = [None] + [(rs, need) for rs in [((0, 13, 0, 12), (0, 13, 0, 12)), ((4, 9, 3, 8), None), (None, (-3, 7, 5, 15)), (None, None)]
                 for need in (True, False)] + [(((4, 9, 3, 8), None), None)]


# -- masks anywhere around a galaxy, against the reference ----------------

NY = [(21, 40), (24, 40), (28, 45), (0, 20), (0, 17), (10, 30), (24, 26), (19, 22), (34, 40)]


def check_near(ck, kind, re, pn, pos, rect):
    """
    Under a mixture or hybrid PSF a mask need not contain the galaxy; under a pixelised one it does.
    """
    import tractor as T
    from mc import ref
    from mc.p06 import ext_psf, EPSF
    from tractor.patch import ModelMask
    from tractor.basics import NullWCS
    s = scene.source(kind, pos[0], pos[1], flux=1., flux2=.6, shape=(re, .3, -.2), shape2=(.6 * re, -.2, .1))
    src = scene.build_source(s)
    img = T.Image(data=np.zeros((40, 45)), inverr=np.ones((40, 45)), psf=ext_psf(pn), wcs=NullWCS(), photocal=T.LinearPhotoCal(2.),
                  sky=T.ConstantSky(0.))
    x0, x1, y0, y1 = rect
    p = src.getModelPatch(img, modelMask=ModelMask(x0, y0, x1 - x0, y1 - y0))
    R = 2. * ref.unit_source(scene.comps(s), pos[0], pos[1], EPSF, np.eye(2) * 3600., rect)
    cx, cy = int(round(pos[0])), int(round(pos[1]))
    peak = 2. * ref.unit_source(scene.comps(s), pos[0], pos[1], EPSF, np.eye(2) * 3600., (cx, cx + 1, cy, cy + 1)).max()
    ck.step()
    if p is None:
        expect(R.max() < 2e-3 * peak, 'nothing rendered in the mask, expected up to %g (%g of the peak)', R.max(), R.max() / peak)
        return
    same((p.x0, p.y0) + tuple(p.patch.shape), (x0, y0, y1 - y0, x1 - x0), 'footprint of the masked rendering')
    whole = pos[0] == int(pos[0]) and pos[1] == int(pos[1])
    close_img(p.patch, R, (1e-3 if pn == 'gmix' else 3e-3 if whole else 8e-3) * peak, 'masked rendering')
    ck.outcome(round(float(p.patch.sum()), 4))


def near(sub, it):
    kind, pos = it
    sub.section('near masks', '8 kinds x 4 sizes x 6 PSFs (square, rectangular, hybrid) x 81 masks around, beside and away from the source')
    for re in ([.3, 1., 2., 4.] if kind != 'point' else [1.]):
        for pn in ['gmix', 'pix', 'tall', 'wide', 'hybrid', 'hybtall']:
            if re > 2 and pn in ('pix', 'tall', 'wide'):
                continue        # (the wings wrap around)
            for a, b in NY:
                for c, d in NY:
                    if pn in ('pix', 'tall', 'wide') and kind != 'point' and not (a + 1 < pos[0] < b - 2 and c + 1 < pos[1] < d - 2):
                        continue
                    d = min(d, 40)
                    sub.case(dict(near=kind, size=re, psf=pn, pos=pos, rect=(a, b, c, d)), check_near, sub, kind, re, pn, pos, (a, b, c, d))


def run(ck):
    P = allpsfs()
    ck.shards([(k, pos) for k in ['point'] + GALS for pos in [(20.3, 22.6), (24., 19.), (37.6, 21.2), (25., 36.)]], near)

    def shardE(sub, k):
        EP = [(pn, make) for pn, make in P if pn in ('pix', 'pixover', 'hybrid', 'psfex')]
        pn, make = EP[k // 2]
        pos = [(30.3, 10.6), (12.2, 41.7)][k % 2]
        sub.section('elongated masks', 'all masks with sides at 3, 12 or 40 pixels from a large galaxy, per pixelised PSF')
        s = sub.case([pn, pos, 'setup'], ext_setup, pn, make, pos)
        if s is None:
            return
        for ext in itertools.product([3, 12, 40] if not sub.thorough else [2, 7, 15, 26, 40], repeat=4):
            sub.case([pn, pos, ext], check_elongated, sub, s, ext)
    ck.shards(range(8), shardE)

    def shardH(sub, k):
        n = 4 if sub.thorough else 3
        sub.section('mask histories', 'all sequences of %d settings of the masks over %d settings, two images and two sources' % (
            n, len(MENU)))
        for rest in itertools.product(MENU, repeat=n - 1):
            sub.case([MENU[k], rest], mask_history, sub, ('point', 'gauss'), (MENU[k],) + rest)
        sub.case(['short', MENU[k]], mask_history, sub, ('exp', 'fixcomp'), (MENU[k],))
    ck.shards(range(len(MENU)), shardH)
    combos = []
    for pn, make in P:
        for k in ['point'] + GALS:
            combos.append((k, pn, make))

    def shard(sub, it):
        kind, pn, make = combos[it]
        positions = [(6.3, 5.8), (6.25, 6.)] if sub.thorough else [(6.3, 5.8)]
        for pos in positions:
            sub.section('rectangles', 'all rectangles over 4x4 x 3x4 (5x5 x 5x5) edge positions containing the source, per source kind x PSF kind')
            B = sub.case([kind, pn, pos, 'base'], base, kind, pn, make, pos)
            if B is None:
                continue
            sub.case([kind, pn, pos, 'unmasked'], check_unmasked, sub, kind, pn, make, pos, B)
            if True:
                sub.section('fixed sizes', 'stars and galaxies of 8 fixed sizes at 5 positions, per kind x PSF kind: model, unit-flux models, masks and derivatives')
                for p2 in (pos, (1.3, 10.9), (11.6, .8), (-1.4, 4.3), (7.3, 13.7)):
                    B2 = B if p2 == pos else sub.case([kind, pn, p2, 'base2'], base, kind, pn, make, p2)
                    for h in (1, 2, 3, 4.5, 6, 9, 12, 20):
                        if B2 is not None and kind == 'point':
                            sub.case([kind, pn, p2, 'radius', h], check_radius, sub, pn, make, p2, B2, h)
                        elif B2 is not None:
                            sub.case([kind, pn, p2, 'size', h], check_size, sub, kind, pn, make, p2, B2, h)
                sub.section('rectangles')
            reuse = (mkimg(make()), mksrc(kind, pos))
            for r in rects(True, sub.thorough):
                sub.case([kind, pn, pos, r], check_rect, sub, kind, pn, make, pos, B, r, reuse)
            if pn in MOG or kind == 'point':
                sub.section('off-source rectangles', '36 rectangles mostly not containing the source (Gaussian-mixture PSFs, and point sources under all PSFs)')
                for r in rects(False, sub.thorough):
                    sub.case([kind, pn, pos, r], check_rect, sub, kind, pn, make, pos, B, r, reuse)
            sub.section('boolean masks', 'all 2^9 patterns of a 3x3 block at the source, and 2^8 borders of a bigger one')
            allb = list(itertools.product([0, 1], repeat=9))
            for bits in allb:
                if not any(bits):
                    continue
                sub.case([kind, pn, pos, bits], check_bool, sub, kind, pn, make, pos, B, (5, 8, 5, 8), bits, reuse)
            # a bigger stamp with each row/column switched off
            n = 7
            for rows in itertools.product([0, 1], repeat=4):
                m = np.ones((n, n), bool)
                for q, on in enumerate(rows):
                    if not on:
                        if q < 2:
                            m[[0, n - 1][q], :] = False
                        else:
                            m[:, [0, n - 1][q - 2]] = False
                sub.case([kind, pn, pos, 'rows', rows], check_bool, sub, kind, pn, make, pos, B, (3, 10, 2, 9),
                         m.ravel(), reuse)
    ck.shards(range(len(combos)), shard)

    ck.section('tractor', 'every subset of masked sources x rectangles x both ways of treating sources without a mask')
    for kinds in [('point', 'exp'), ('gauss', 'fixcomp', 'point')]:
        for have in itertools.product([0, 1], repeat=len(kinds)):
            for assume in [True, False]:
                for rs in itertools.product([(0, 13, 0, 12), (4, 9, 3, 8), (-3, 7, 5, 15)], repeat=len(kinds)):
                    if not ck.thorough and len(kinds) == 3 and rs[0] == rs[1]:
                        continue
                    ck.case([kinds, have, assume, rs], tractor_level, ck, kinds, have, assume, rs)
    ck.assumptions += ['galaxies under pixelised PSFs: the mask contains the source centre (the code refuses otherwise); '
                       'agreement limited by the wrap-around of the discrete Fourier transform',
                       'pixels outside the boolean mask are unspecified: between zero and the true value']
