"""
P17: caching is transparent.

A: every sequence of operations on a Cache (get, get with default, put, item
   access, clear, len) up to a depth, against a least-recently-used model;
   NullCache never holds anything.
B: every history of edits to a scene (sources, images, PSFs, WCSs, photometric
   calibrations, masks, thresholds, options): a Tractor with the cache mixin
   renders exactly what a plain Tractor renders from the same objects.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, same, texture
from mc.zoo import psf_stamp, psfex_model, tan

# ---------------------------------------------------------------- A: the LRU


class Model(object):
    def __init__(self, maxsize):
        self.maxsize = maxsize
        self.items = []
        self.hits = self.misses = 0

    def find(self, k):
        for i, (kk, v) in enumerate(self.items):
            if kk == k:
                return i
        return None

    def get(self, k, default=KeyError):
        i = self.find(k)
        if i is None:
            self.misses += 1
            return default
        self.hits += 1
        kv = self.items.pop(i)
        self.items.append(kv)
        return kv[1]

    def put(self, k, v):
        i = self.find(k)
        if i is not None:
            self.items.pop(i)
        elif len(self.items) >= self.maxsize:
            self.items.pop(0)
        self.items.append((k, v))

    def clear(self):
        self.items = []
        self.hits = self.misses = 0


class Val(object):
    def __init__(self, size):
        self.size = size


def lru(ck, maxsize, hist, keys):
    from tractor.cache import Cache
    c = Cache(maxsize=maxsize)
    m = Model(maxsize)
    vals = {}
    n = 0
    for op in hist:
        ck.step()
        kind = op[0]
        if kind == 'put' or kind == 'set':
            n += 1
            v = Val(n) if op[2] else None
            if kind == 'put':
                c.put(keys[op[1]], v)
            else:
                c[keys[op[1]]] = v
            m.put(op[1], v)
        elif kind == 'get':
            r = c.get(keys[op[1]], 'dflt')
            w = m.get(op[1], 'dflt')
            expect(r is w, 'get(key, default) gave %r, expected %r', r, w)
        elif kind == 'item':
            w = m.get(op[1])
            for f in (lambda: c[keys[op[1]]],) if op[2] else (lambda: c.get(keys[op[1]]),):
                try:
                    r = f()
                except KeyError:
                    r = KeyError
                expect(r is w, 'lookup gave %r, expected %r', r, w)
        else:
            c.clear()
            m.clear()
        same(len(c), len(m.items), 'number of entries after %s' % (op,))
        same((c.hits, c.misses), (m.hits, m.misses), '(hits, misses) after %s' % (op,))
        same(c.totalSize(), sum(v.size for k, v in m.items if v is not None), 'total size after %s' % (op,))
        str(c)
    # which entries are left: ask in order, on the model too
    for k in range(len(keys)):
        i = m.find(k)
        w = 'none' if i is None else m.items[i][1]
        r = c.get(keys[k], 'none')
        expect(r is w, 'at the end, entry %d is %r, expected %r', k, r, w)


def nullcache(hist):
    from tractor.cache import NullCache
    c = NullCache()
    for op in hist:
        if op[0] in ('put', 'set'):
            if op[0] == 'put':
                c.put(op[1], 5)
            else:
                c[op[1]] = 5
        elif op[0] == 'get':
            same(c.get(op[1], 'd'), 'd', 'NullCache.get with default')
        elif op[0] == 'item':
            try:
                c[op[1]] if op[2] else c.get(op[1])
            except KeyError:
                pass
            else:
                fail('NullCache returned something')
        else:
            c.clear()
        same((len(c), c.totalSize()), (0, 0), 'NullCache size')


# ---------------------------------------------------------------- B: scenes

SHAPE = (13, 14)


def gm():
    import tractor as T
    return T.GaussianMixturePSF(*[a.copy() for a in scene.PSF2])


def psfs():
    import tractor as T
    from tractor.psf import HybridPixelizedPSF, NormalizedPixelizedPsf, GaussianMixtureEllipsePSF
    from tractor.psfex import PixelizedPsfEx, NormalizedPixelizedPsfEx
    from tractor.shifted import ShiftedPsf
    from mc.p08 import varying_psf
    from tractor.ellipses import EllipseESoft
    st = psf_stamp(11)

    def sh():
        return PixelizedPsfEx(None, psfex=psfex_model())
    return [
        ('gm', gm),
        ('gmA', lambda: T.GaussianMixturePSF(np.array([.6, .4]), *[a.copy() for a in scene.PSF2[1:]])),
        ('gmV', lambda: T.GaussianMixturePSF(scene.PSF2[0].copy(), scene.PSF2[1].copy(), 1.3 * scene.PSF2[2])),
        ('nc1', lambda: T.NCircularGaussianPSF([1.2, 2.], [.8, .2])),
        ('nc2', lambda: T.NCircularGaussianPSF([1.2, 2.], [.2, .8])),
        ('nc3', lambda: T.NCircularGaussianPSF([1.2, 2.5], [.8, .2])),
        ('ell', lambda: GaussianMixtureEllipsePSF(np.array([.7, .3]), np.array([[0., 0.], [.3, -.2]]),
                                                  [EllipseESoft(.3, .1, .2), EllipseESoft(.7, -.3, .1)])),
        ('ell2', lambda: GaussianMixtureEllipsePSF(np.array([.7, .3]), np.array([[0., 0.], [.3, -.2]]),
                                                   [EllipseESoft(.3, .1, -.2), EllipseESoft(.7, -.3, .1)])),
        ('pix', lambda: T.PixelizedPSF(st.copy())),
        ('pixT', lambda: T.PixelizedPSF(st.T.copy())),
        ('pixR', lambda: T.PixelizedPSF(np.roll(st, 1, axis=0))),
        ('pix9x11', lambda: T.PixelizedPSF(st.ravel()[:99].reshape(9, 11).copy())),
        ('pix11x9', lambda: T.PixelizedPSF(st.ravel()[:99].reshape(11, 9).copy())),
        ('pixS', lambda: T.PixelizedPSF(st.copy(), sampling=.6)),
        ('pixL', lambda: T.PixelizedPSF(st.copy(), Lorder=5)),
        ('norm', lambda: NormalizedPixelizedPsf(2. * st)),
        ('norm3', lambda: NormalizedPixelizedPsf(3. * st + .01)),
        ('hyb', lambda: HybridPixelizedPSF(T.PixelizedPSF(st.copy()), gm())),
        ('hyb2', lambda: HybridPixelizedPSF(T.PixelizedPSF(st.copy()), T.NCircularGaussianPSF([1.2, 2.], [.8, .2]))),
        ('psfex', lambda: PixelizedPsfEx(None, psfex=psfex_model())),
        ('psfex1', lambda: PixelizedPsfEx(None, psfex=psfex_model(degree=1))),
        ('psfexs', lambda: PixelizedPsfEx(None, psfex=psfex_model(sampling=.7))),
        ('psfexN', lambda: NormalizedPixelizedPsfEx(None, psfex=psfex_model())),
        ('psfexsh', lambda: sh().getShifted(7, 5)),
        ('psfexsh2', lambda: sh().getShifted(5, 7)),
        ('shifted', lambda: ShiftedPsf(varying_psf(), 6, 4)),
        ('shifted2', lambda: ShiftedPsf(varying_psf(), 4, 6)),
    ]


def wcss():
    from tractor.basics import NullWCS
    from tractor.shifted import ShiftedWcs
    return [('null', lambda: NullWCS()), ('nulldx', lambda: NullWCS(dx=.3)), ('nulldy', lambda: NullWCS(dy=.3)),
            ('nullps', lambda: NullWCS(pixscale=.8)), ('shx', lambda: ShiftedWcs(NullWCS(), 1., 0.)),
            ('shy', lambda: ShiftedWcs(NullWCS(), 0., 1.)), ('shps', lambda: ShiftedWcs(NullWCS(pixscale=.8), 1., 0.))]


def skywcss():
    from tractor.wcs import ConstantFitsWcs, TanWcs
    from tractor.shifted import ShiftedWcs

    def off(w, x, y):
        w.setX0Y0(x, y)
        return w
    mk = lambda rot=0., **k: tan(w=14, h=13, rot=rot, **k)
    return [('tan', lambda: TanWcs(mk())), ('tanrot', lambda: TanWcs(mk(30.))), ('tanx', lambda: off(TanWcs(mk()), .5, 0)),
            ('tany', lambda: off(TanWcs(mk()), 0, .5)), ('const', lambda: ConstantFitsWcs(mk())),
            ('constrot', lambda: ConstantFitsWcs(mk(30.))), ('constx', lambda: off(ConstantFitsWcs(mk()), .5, 0)),
            ('consty', lambda: off(ConstantFitsWcs(mk()), 0, .5)), ('shtan', lambda: ShiftedWcs(TanWcs(mk()), 1, 0)),
            ('shtan2', lambda: ShiftedWcs(TanWcs(mk()), 0, 1))]


class World(object):
    pass


def mkimage(wcs, psf, band, seed):
    import tractor as T
    return T.Image(data=texture(SHAPE, seed), inverr=.5 + .5 * np.abs(texture(SHAPE, seed + 9)), psf=psf, wcs=wcs,
                   photocal=T.LinearPhotoCal(2., band=band), sky=T.ConstantSky(.5), name='im%d' % seed)


def cached_class():
    from tractor import Tractor
    from tractor.cache import TractorCacheMixin

    class Cached(TractorCacheMixin, Tractor):
        pass
    return Cached


def flat_world(cache=None):
    import tractor as T
    from tractor.galaxy import ExpGalaxy, FixedCompositeGalaxy, SoftenedFracDev
    from tractor.ellipses import EllipseE
    nm = lambda g, r: T.NanoMaggies(g=g, r=r, order=['g', 'r'])
    w = World()
    w.ims = [mkimage(dict(wcss())['null'](), gm(), 'r', 1), mkimage(dict(wcss())['nulldx'](), T.PixelizedPSF(psf_stamp(11)), 'g', 2)]
    w.srcs = [T.PointSource(T.PixPos(5.2, 6.1), nm(40., 60.)),
              ExpGalaxy(T.PixPos(7.4, 5.8), nm(70., 30.), EllipseE(1.1, .2, -.1)),
              FixedCompositeGalaxy(T.PixPos(6.4, 7.3), nm(55., 80.), SoftenedFracDev(.4), EllipseE(1.1, .2, -.1),
                                   EllipseE(.8, -.1, .2))]
    return finish(w, cache)


def sky_world(cache=None):
    import tractor as T
    from tractor.galaxy import ExpGalaxy
    from tractor.ellipses import EllipseE
    from tractor.motion import MovingPointSource
    from tractor.tractortime import TAITime
    nm = lambda g, r: T.NanoMaggies(g=g, r=r, order=['g', 'r'])
    ws = dict(skywcss())
    w = World()
    w.ims = [mkimage(ws['tan'](), gm(), 'r', 1), mkimage(ws['const'](), gm(), 'g', 2)]
    w.t0 = 5e9
    for i, im in enumerate(w.ims):
        im.time = TAITime(w.t0 + i * 3.15e7)
    p = lambda x, y: w.ims[0].wcs.pixelToPosition(x, y)
    w.srcs = [T.PointSource(p(5.2, 6.1), nm(40., 60.)),
              MovingPointSource(p(7., 6.), nm(70., 30.), T.RaDecPos(2e-4, -1e-4) if False else pm(), 0., epoch=TAITime(w.t0)),
              ExpGalaxy(p(6.5, 7.), nm(55., 80.), EllipseE(1.1, .2, -.1))]
    return finish(w, cache)


def pm():
    from tractor.motion import PMRaDec
    return PMRaDec(.4, -.3)


def finish(w, cache):
    import tractor as T
    kw = {} if cache is None else dict(cache=cache)
    w.cached = cached_class()(T.Images(*w.ims), T.Catalog(*w.srcs), **kw)
    w.plain = T.Tractor(T.Images(*w.ims), T.Catalog(*w.srcs))
    w.minsb = None
    w.kwargs = {}
    return w


def swapsrc(w, i, new):
    old = w.srcs[i]
    w.srcs[i] = new
    for tr in (w.cached, w.plain):
        tr.catalog[i] = new


def dense(p, shape=SHAPE):
    if p is None or p.patch is None:
        return np.zeros(shape)
    img = np.zeros(shape)
    p.addTo(img)
    return img


def compare(ck, w, what):
    ck.step()
    mv = 0.
    for i, im in enumerate(w.ims):
        for j, s in enumerate(w.srcs):
            a = w.cached.getModelPatch(im, s, minsb=w.minsb, **w.kwargs)
            b = w.plain.getModelPatch(im, s, minsb=w.minsb, **w.kwargs)
            mv = w.minsb if w.minsb is not None else im.modelMinval
            da, db = dense(a), dense(b)
            d = np.abs(da - db).max()
            expect(np.isfinite(d), 'non-finite difference')
            if d > (mv if mv else 0.) * 1.0001 + 1e-6 * np.abs(db).max():
                fail('image %d source %d: rendering with the cache differs by %g (peak %g) after %s', i, j, d, np.abs(db).max(), what)
    if w.minsb is None and not w.kwargs:
        for i in range(len(w.ims)):
            a = w.cached.getModelImage(i)
            b = w.plain.getModelImage(i)
            tol = len(w.srcs) * w.ims[i].modelMinval * 1.0001 + 1e-6 * np.abs(b).max()
            expect(np.abs(a - b).max() <= tol, 'model image %d differs by %g after %s', i, np.abs(a - b).max(), what)
        la, lb = w.cached.getLogProb(), w.plain.getLogProb()
        if not any(im.modelMinval for im in w.ims):
            close(la, lb, 1e-5, 1e-6, 'log-probability')


# --- edits: (name, fn(world))


def flat_ops():
    import tractor as T
    from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy, SoftenedFracDev, FixedCompositeGalaxy
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.basics import NullWCS
    from tractor.shifted import ScaledPhotoCal
    from tractor.patch import ModelMask
    ops = []

    def op(name, core=False, tags=''):
        def deco(f):
            ops.append((name, f, core))
            return f
        return deco
    nm = lambda **k: T.NanoMaggies(order=sorted(k), **k)
    for v in (-1., -2., 50.):
        op('flux%g' % v, core=v < 0)(lambda w, v=v: setattr(w.srcs[0].brightness, 'r', v))
        op('x%g' % v if v < 0 else 'x3', core=v == -2.)(lambda w, v=v: setattr(w.srcs[0].pos, 'x', v if v < 0 else 3.))
    op('swapfluxes', True)(lambda w: w.srcs[1].brightness.setParams(list(w.srcs[1].brightness.getParams())[::-1]))
    op('swapxy')(lambda w: w.srcs[1].pos.setParams(list(w.srcs[1].pos.getParams())[::-1]))

    def relabel(w):
        b = w.srcs[1].brightness
        o = list(b.order)
        p = list(b.getAllParams())
        w.srcs[1].brightness = T.NanoMaggies(order=o[::-1], **dict(zip(o[::-1], p)))
    op('relabel-bands', True)(relabel)

    def mags(w):
        if not isinstance(w.ims[1].photocal, T.MagsPhotoCal):
            w.srcs[0].brightness = T.Fluxes(order=['g', 'r'], g=41., r=61.)
    op('fluxes-object')(mags)
    op('params+')(lambda w: w.plain.catalog.setParams([p + .01 for p in w.plain.catalog.getParams()]))
    op('freeze-pos', True)(lambda w: w.srcs[0].freezeParam('pos'))
    op('freeze-bright')(lambda w: w.srcs[1].freezeParam('brightness'))
    op('freeze-all')(lambda w: w.plain.freezeAllRecursive())
    op('thaw-all', True)(lambda w: w.plain.thawAllRecursive())
    op('freeze-src')(lambda w: (w.plain.catalog.freezeParam(0), w.cached.catalog.freezeParam(0)))

    def cls(w, c):
        s = w.srcs[1]
        swapsrc(w, 1, c(s.pos, s.brightness, getattr(s, 'shape', getattr(s, 'shapeExp', None))))
    op('to-dev', True)(lambda w: cls(w, DevGalaxy))
    op('to-exp')(lambda w: cls(w, ExpGalaxy))
    op('to-gauss')(lambda w: cls(w, GaussianGalaxy))
    op('shape-re')(lambda w: w.srcs[1].shape.setParams([1.5] + list(w.srcs[1].shape.getAllParams())[1:]))
    op('shape-e', True)(lambda w: w.srcs[1].shape.setParams([w.srcs[1].shape.getAllParams()[0], -.1, .2]))
    op('shape-swap')(lambda w: w.srcs[1].shape.setParams([w.srcs[1].shape.getAllParams()[0], .2, -.1]))

    def soft(w):
        w.srcs[1].shape = EllipseESoft(*w.srcs[1].shape.getAllParams())
    op('shape-soft', True)(soft)
    op('frac')(lambda w: setattr(w.srcs[2].fracDev, 'val', .8))

    def plainfrac(w):
        from tractor.galaxy import FracDev
        w.srcs[2].fracDev = FracDev(w.srcs[2].fracDev.getAllParams()[0])
    op('frac-class', True)(plainfrac)

    def swapshapes(w):
        s = w.srcs[2]
        s.shapeExp, s.shapeDev = s.shapeDev, s.shapeExp
    op('swap-shapes')(swapshapes)
    op('scale3')(lambda w: setattr(w.ims[0].photocal, 'val', 3.))
    op('band-g', True)(lambda w: setattr(w.ims[0].photocal, 'band', 'g'))

    def scaled(w, f):
        w.ims[0].photocal = ScaledPhotoCal(T.LinearPhotoCal(2., band='r'), f)
    op('scaled2')(lambda w: scaled(w, 2.))
    op('scaled4')(lambda w: scaled(w, 4.))

    def fpc(w, b):
        from tractor.brightness import FluxesPhotoCal
        w.ims[1].photocal = FluxesPhotoCal(b)
    op('fluxes-g')(lambda w: fpc(w, 'g'))
    op('fluxes-r')(lambda w: fpc(w, 'r'))

    def mpc(w, b, zp):
        from tractor.brightness import MagsPhotoCal
        if hasattr(w.srcs[0].brightness, 'getMag'):
            w.ims[1].photocal = MagsPhotoCal(b, zp)
    op('mags-g')(lambda w: mpc(w, 'g', 23.))
    op('mags-r')(lambda w: mpc(w, 'r', 23.))
    op('mags-r-zp')(lambda w: mpc(w, 'r', 23.5))
    for i in (0, 1):
        op('shape-im%d' % i, i == 1)(lambda w, i=i: crop(w, i))
    for nm_, mk in wcss():
        op('wcs-' + nm_, nm_ in ('nulldy', 'nullps'))(lambda w, mk=mk: setattr(w.ims[0], 'wcs', mk()))
    op('pixscale', True)(lambda w: setattr(w.ims[1].wcs, 'pixscale', .7) if hasattr(w.ims[1].wcs, 'pixscale') else None)
    for nm_, mk in psfs():
        op('psf-' + nm_, nm_ in ('nc1', 'pix', 'pixS', 'hyb'))(lambda w, mk=mk: setattr(w.ims[0], 'psf', mk()))
    op('psf1-pixT', True)(lambda w: setattr(w.ims[1], 'psf', dict(psfs())['pixT']()))
    op('psf-params', True)(psfparams)
    op('psf-freeze')(psffreeze)
    op('same-psf')(lambda w: setattr(w.ims[1], 'psf', w.ims[0].psf))
    op('sky')(lambda w: setattr(w.ims[0].sky, 'val', 3.))
    # observation only: rendering thresholds and options
    op('minsb.5', True)(lambda w: setattr(w, 'minsb', .5))
    op('minsb0')(lambda w: setattr(w, 'minsb', 0.))
    op('minsb-none')(lambda w: setattr(w, 'minsb', None))
    op('minval.2', True)(lambda w: setattr(w.ims[0], 'modelMinval', .2))
    op('minval0')(lambda w: setattr(w.ims[0], 'modelMinval', 0.))

    def masks(w, which):
        H, W = SHAPE
        for tr in (w.cached, w.plain):
            if which is None:
                tr.setModelMasks(None)
                continue
            d = []
            for im in w.ims:
                m = {}
                for k, s in enumerate(w.srcs):
                    if which == 'box':
                        m[s] = ModelMask(2, 3, 8, 7)
                    elif which == 'box2':
                        m[s] = ModelMask(3, 2, 8, 7)
                    elif which == 'wide':
                        m[s] = ModelMask(3, 2, 7, 8)
                    elif which == 'bin':
                        b = np.ones((7, 8), bool)
                        b[2, 3] = False
                        m[s] = ModelMask(2, 3, b)
                    elif which == 'bin2':
                        b = np.ones((7, 8), bool)
                        b[4, 5] = False
                        m[s] = ModelMask(2, 3, b)
                    elif which == 'some' and k > 0:
                        m[s] = ModelMask(2, 3, 8, 7)
                d.append(m)
            tr.setModelMasks(d, assumeMasks=(which != 'box2' and which != 'some1'))
    for which in ('box', 'box2', 'wide', 'bin', 'bin2', 'some'):
        op('mask-' + which, which in ('box', 'bin', 'some'))(lambda w, which=which: masks(w, which))
    op('mask-none', True)(lambda w: masks(w, None))
    # cache controls
    op('clearCache', True)(lambda w: w.cached.clearCache() if w.cached.cache is not None else None)
    op('disable')(lambda w: w.cached.disable_cache())
    return ops


def crop(w, i):
    im = w.ims[i]
    H, W = im.data.shape
    im.data = im.data[:H - 2, :W - 1].copy()
    im.inverr = im.inverr[:H - 2, :W - 1].copy()


def psfparams(w):
    p = w.ims[0].psf
    a = list(p.getAllParams()) if hasattr(p, 'getAllParams') else []
    if len(a):
        fr = p.getParams()
        if len(fr):
            v = list(fr)
            v[-1] = v[-1] * 1.1 + .01
            p.setParams(v)


def psffreeze(w):
    p = w.ims[0].psf
    if hasattr(p, 'sigmas'):
        p.freezeParam('sigmas')
    else:
        f = getattr(p, 'freezeParams', None)
        if p.numberOfParams() > 0:
            p.freezeParam(0) if not hasattr(p, 'getNamedParams') else p.freezeParam(p.getParamNames()[0].split('.')[0])


def sky_ops():
    import tractor as T
    from tractor.galaxy import DevGalaxy
    from tractor.tractortime import TAITime
    ops = []
    for i in (0, 1):
        for nm_, mk in skywcss():
            ops.append(('wcs%d-%s' % (i, nm_), lambda w, i=i, mk=mk: setattr(w.ims[i], 'wcs', mk()), i == 0 and nm_ in ('tanrot', 'tanx', 'const')))
    for dt in (0., 1e7, 6e7):
        ops.append(('time%g' % dt, lambda w, dt=dt: setattr(w.ims[0], 'time', TAITime(w.t0 + dt)), dt > 0))
    ops.append(('timeval', lambda w: setattr(w.ims[1].time, 'val', w.t0 + 9e7), True))

    def tanparam(w, k, v):
        wc = w.ims[0].wcs
        if wc.numberOfParams() > 0:
            p = list(wc.getParams())
            if k < len(p):
                p[k] += v
                wc.setParams(p)
    for k in range(8):
        ops.append(('tanparam%d' % k, lambda w, k=k: tanparam(w, k, .5 if k > 3 and False else (1e-4 if k < 2 else .4 if k < 4 else 1e-6)), k in (0, 3)))
    ops.append(('tanfreeze', lambda w: w.ims[0].wcs.freezeParams('crval1', 'crval2') if hasattr(w.ims[0].wcs, 'getNamedParams') and w.ims[0].wcs.numberOfParams() > 0 and 'crval1' in w.ims[0].wcs.getParamNames() else None, True))
    def wcslib():
        from tractor.wcs import WcslibWcs
        from astrometry.util.util import anwcs_new_tan
        return WcslibWcs(None, wcs=anwcs_new_tan(tan(w=14, h=13)))
    ops.append(('wcs1-wcslib', lambda w: setattr(w.ims[1], 'wcs', wcslib()), False))
    ops.append(('y0', lambda w: w.ims[1].wcs.setX0Y0(0., .75) if hasattr(w.ims[1].wcs, 'setX0Y0') else None, True))
    ops.append(('x0', lambda w: w.ims[1].wcs.setX0Y0(.5, .25) if hasattr(w.ims[1].wcs, 'setX0Y0') else None, True))
    ops.append(('pm', lambda w: w.srcs[1].pm.setParams([.1, .9]), True))
    ops.append(('pmneg', lambda w: w.srcs[1].pm.setParams([-1., -2.]), False))
    ops.append(('parallax', lambda w: setattr(w.srcs[1].parallax, 'val', .5), True))
    ops.append(('epoch', lambda w: setattr(w.srcs[1], 'epoch', TAITime(w.t0 - 5e8)), True))
    ops.append(('ra', lambda w: setattr(w.srcs[0].pos, 'ra', w.srcs[0].pos.ra + 3e-4), False))
    ops.append(('dec', lambda w: setattr(w.srcs[0].pos, 'dec', w.srcs[0].pos.dec + 3e-4), False))
    ops.append(('flux-1', lambda w: setattr(w.srcs[1].brightness, 'r', -1.), False))
    ops.append(('flux-2', lambda w: setattr(w.srcs[1].brightness, 'r', -2.), False))
    return ops


def history(ck, world, ops, hist, cache=None):
    w = world(cache)
    compare(ck, w, 'start')
    done = []
    for k in hist:
        name, f, core = ops[k]
        done.append(name)
        f(w)
        compare(ck, w, done)
    # and back to what was rendered before: entries made along the way are still right
    compare(ck, w, done + ['again'])


def thresholds(ck, hist):
    """renderings asked for with a history of thresholds, none of them made before"""
    w = flat_world()
    done = []
    for mv, ms in hist:
        for im in w.ims:
            im.modelMinval = mv
        w.minsb = ms
        done.append('modelMinval=%g, minsb=%s' % (mv, ms))
        compare(ck, w, done)


def toggles(ck, world, ops, a, b, cache=None):
    """a, b, a, b: returning to an earlier state must not resurrect another state's images"""
    history(ck, world, ops, (a, b, a, b), cache)


def options(ck, i, j):
    """rendering options given through model_kwargs"""
    w = flat_world()
    from tractor.galaxy import ExpGalaxy
    opts = [dict(), dict(fixed=1), dict(fixed=2)]

    class Opt(ExpGalaxy):
        def getModelPatch(self, img, minsb=None, modelMask=None, fixed=0, **kw):
            p = super(Opt, self).getModelPatch(img, minsb=minsb, modelMask=modelMask, **kw)
            return p * (1. + fixed)
    s = w.srcs[1]
    swapsrc(w, 1, Opt(s.pos, s.brightness, s.shape))
    w2 = w.srcs
    # only this source takes the option
    for tr in (w.cached, w.plain):
        tr.catalog = type(tr.catalog)(w.srcs[1])
    w.srcs = [w.srcs[1]]
    for k in (i, j, i):
        for how in ('model_kwargs', 'kwargs'):
            if how == 'model_kwargs':
                w.cached.model_kwargs = dict(opts[k])
                w.plain.model_kwargs = dict(opts[k])
                compare(ck, w, ['model_kwargs=%s' % opts[k]])
            else:
                w.cached.model_kwargs = {}
                w.plain.model_kwargs = {}
                w.kwargs = opts[k]
                compare(ck, w, ['kwargs=%s' % opts[k]])
                w.kwargs = {}


def run(ck):
    thor = ck.thorough
    import tractor.cache
    kops = lambda nk: ([('put', k, 1) for k in range(nk)] + [('put', 0, 0), ('set', 1, 1)] +
                       [('get', k) for k in range(nk)] + [('item', 0, 1), ('item', 1, 0)] + [('clear',)])
    pg = [('put', k, 1) for k in range(4)] + [('get', k) for k in range(3)]
    D, E = (5, 7) if thor else (4, 5)
    ck.section('A', 'all sequences of %d operations out of %d over 3 keys, maximum sizes 1-3; all sequences of %d out of %d puts and gets over 4 keys, sizes 2-4'
               % (D, len(kops(3)), E, len(pg)))
    KEYS = [(-1,), (-2,), ('x', (-1., 2)), 'd']

    def shardA(sub, item):
        which, first, maxsize = item
        o, d = (kops(3), D) if which == 'all' else (pg, E)
        for rest in itertools.product(range(len(o)), repeat=d - 2):
            h = first + rest
            sub.case('lru-%s-%d-%s' % (which, maxsize, '.'.join(map(str, h))), lru, sub, maxsize, [o[k] for k in h], KEYS)
    ck.shards([('all', f, m) for m in (1, 2, 3) for f in itertools.product(range(len(kops(3))), repeat=2)] +
              [('pg', f, m) for m in (2, 3, 4) for f in itertools.product(range(len(pg)), repeat=2)], shardA)
    o = kops(3)
    for h in itertools.product(o, repeat=3):
        ck.case('null-%s' % (h,), nullcache, h)

    fo, so = flat_ops(), sky_ops()
    fc = [k for k, x in enumerate(fo) if x[2]]
    sc = [k for k, x in enumerate(so) if x[2]]
    ck.section('B', 'flat scene: all pairs of %d edits (and the same with returns), all triples of %d; sky scene: all pairs of %d, triples of %d; '
               'cache sizes 1000, 3 (pairs of core edits)' % (len(fo), len(fc), len(so), len(sc)))
    nme = lambda ops, h: '-'.join(ops[k][0] for k in h)

    def shardB(sub, item):
        which, a = item
        from tractor.cache import Cache, NullCache
        if which == 'flat2':
            for b in range(len(fo)):
                sub.case('flat:%s' % nme(fo, (a, b)), history, sub, flat_world, fo, (a, b))
                if b > a and fo[a][0].split('-')[0] == fo[b][0].split('-')[0]:
                    sub.case('flat:abab:%s' % nme(fo, (a, b)), toggles, sub, flat_world, fo, a, b)
        elif which == 'sky2':
            for b in range(len(so)):
                sub.case('sky:%s' % nme(so, (a, b)), history, sub, sky_world, so, (a, b))
                if b > a and so[a][0][:3] == so[b][0][:3]:
                    sub.case('sky:abab:%s' % nme(so, (a, b)), toggles, sub, sky_world, so, a, b)
        elif which == 'flat3':
            for b in fc:
                for c in fc:
                    if not thor and (a + b + c) % 1:
                        continue
                    sub.case('flat3:%s' % nme(fo, (a, b, c)), history, sub, flat_world, fo, (a, b, c))
        elif which == 'sky3':
            for b in sc:
                for c in sc:
                    sub.case('sky3:%s' % nme(so, (a, b, c)), history, sub, sky_world, so, (a, b, c))
        elif which == 'small':
            for b in fc:
                sub.case('small:%s' % nme(fo, (a, b)), history, sub, flat_world, fo, (a, b), Cache(maxsize=3))
                sub.case('nullc:%s' % nme(fo, (a, b)), history, sub, flat_world, fo, (a, b), NullCache())
    items = [('flat2', a) for a in range(len(fo))] + [('sky2', a) for a in range(len(so))] + [('small', a) for a in fc]
    items += [('flat3', a) for a in fc if thor] + [('sky3', a) for a in sc if thor]
    ck.shards(items, shardB)
    TH = list(itertools.product([0., .3, 3.], [None, 0., .1, 2.]))
    n = 3 if thor else 2
    ck.section('thresholds', 'all sequences of %d (image threshold, requested threshold) pairs' % n)
    ck.shards(TH, lambda sub, f: [sub.case('thresholds %s' % ((f,) + h,), thresholds, sub, (f,) + h) for h in itertools.product(TH, repeat=n - 1)])
    ck.section('options', 'all pairs of rendering options, through model_kwargs and as arguments')
    for i in range(3):
        for j in range(3):
            ck.case('opt-%d-%d' % (i, j), options, ck, i, j)
    ck.assumptions += [
        'Edits that go through no public attribute or parameter (writing into pixel arrays in place, editing a returned patch) are not covered.',
        'A rendering made with a lower threshold may be reused for a higher one: the two then agree to the threshold per pixel.',
    ]
