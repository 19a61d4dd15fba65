"""
P23: the vectorised (GPU) optimiser computes what the CPU code computes.  The
same array code runs here with numpy as its array library (GpuOptimizer('numpy')).

A: every scene (source kind x surface brightness x images x frozen states x
   priors x masks x positions): models equal the CPU renderings; the update
   solves the least-squares problem built from the CPU derivatives; asking
   changes nothing.
B: line searches: every scene x step direction: the accepted step is the best of
   the prescribed steps, its reported improvement is the true one, the
   parameters are those of the accepted step.
C: histories of moves, updates, line searches with the image cache on and off.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, same, texture
from mc.zoo import flags

H, W = 30, 32
MASK = (5, 4, 22, 21)


def mytan(dec, rot, ps, H=H, W=W):
    from astrometry.util.util import Tan
    c, s = np.cos(np.deg2rad(rot)) * ps / 3600., np.sin(np.deg2rad(rot)) * ps / 3600.
    return Tan(150., float(dec), W / 2. + .5, H / 2. + .5, -c, s, s, c, float(W), float(H))


def mkpsf(n, s):
    from tractor.psf import HybridPixelizedPSF, PixelizedPSF, NCircularGaussianPSF
    h = n // 2
    y, x = np.mgrid[-h:h + 1, -h:h + 1]
    im = sum(a * np.exp(-.5 * (x**2 + y**2) / v**2) / (2 * np.pi * v**2) for a, v in ((.8, s), (.2, 2 * s)))
    return HybridPixelizedPSF(PixelizedPSF(im.astype(np.float32)), gauss=NCircularGaussianPSF([s, 2 * s], [.8, .2]))


# image menus: list of (band, dec-independent rotation, pixel scale, photocal scale, psf size, psf sigma, mask or None)
def im(band, rot=0., ps=.5, scale=1., n=21, s=1.2, mask=MASK, shape=(H, W)):
    return dict(shape=shape, band=band, rot=rot, ps=ps, scale=scale, n=n, s=s, mask=mask)


IMAGES = [
    ('g', [im('g')]),
    ('r-rot', [im('r', rot=35.)]),
    ('z', [im('z', ps=.4)]),
    ('gr', [im('g'), im('r', rot=20., s=1.5)]),
    ('rg', [im('r', rot=20., s=1.5), im('g', n=25)]),
    ('grr', [im('g'), im('r', rot=90.), im('r', rot=-40., ps=.6)]),
    ('scaled', [im('g', scale=3.), im('r', scale=.25)]),
    ('masks', [im('g', mask=(6, 5, 20, 18)), im('r', mask=(4, 3, 23, 24))]),
    ('nomask', [im('g'), im('r', mask=None), im('z')]),
    ('edge', [im('g', mask=(0, 0, 26, 25)), im('g', mask=(4, 6, W - 4, H - 6), rot=15.)]),
    ('wide', [im('g', shape=(48, 50), mask=(2, 2, 46, 44), s=2.), im('r', shape=(48, 50), mask=(3, 2, 44, 43), s=2.5, n=25)]),
    ('tall', [im('g', shape=(56, 30), mask=(9, 3, 13, 50)), im('r', shape=(54, 30), mask=(8, 0, 14, 54), rot=10.)]),
    ('nomask2', [im('g', mask=(6, 5, 20, 18)), im('r', mask=None), im('z', mask=(4, 3, 23, 24)), im('z', mask=None, rot=30.)]),
    ('psfs', [im('g', n=15, s=1.), im('r', n=41, s=1.6)]),
]
KINDS = ['psf', 'gauss', 'exp', 'dev', 'ser', 'none']
POS = [(15.3, 14.6), (16., 14.), (15.5, 14.49)]


def build(kind, sb, images, dec=20., pos=POS[0], off=(.35, -.25), shape=(.3, .2, -.1), n=2., noise=.4, border=0):
    import tractor as T
    from tractor.galaxy import ExpGalaxy, DevGalaxy, GaussianGalaxy
    from tractor.sersic import SersicGalaxy, SersicIndex
    from tractor.ellipses import EllipseESoft
    from tractor.wcs import ConstantFitsWcs
    from tractor.patch import ModelMask
    from tractor.basics import ConstantSurfaceBrightness
    ims = []
    for i, d in enumerate(images):
        H, W = d['shape']
        ie = (1. + .3 * texture((H, W), 5 + i)).astype(np.float32)
        ie[(3 + i)::7, ::5] = 0.
        if border and d['mask'] is not None:
            x, y, w, h = d['mask']
            keep = np.zeros((H, W), bool)
            keep[y + border:y + h - border, x + border:x + w - border] = True
            ie[~keep] = 0.
        ims.append(T.Image(data=np.zeros((H, W), np.float32), inverr=ie, psf=mkpsf(d['n'], d['s']),
                           wcs=ConstantFitsWcs(mytan(dec, d['rot'], d['ps'], H, W)),
                           photocal=T.LinearPhotoCal(d['scale'], band=d['band']), sky=T.ConstantSky(0.), name='im%d' % i))
    p = ims[0].wcs.pixelToPosition(*pos)
    br = T.NanoMaggies(order=['g', 'r', 'z'], g=100., r=150., z=70.)
    sh = EllipseESoft(*shape)
    src = dict(psf=lambda: T.PointSource(p, br), exp=lambda: ExpGalaxy(p, br, sh), dev=lambda: DevGalaxy(p, br, sh),
               gauss=lambda: GaussianGalaxy(p, br, sh), ser=lambda: SersicGalaxy(p, br, sh, SersicIndex(n)), none=lambda: None)[kind]()
    srcs = [src]
    if sb:
        srcs.append(ConstantSurfaceBrightness(T.NanoMaggies(order=['g', 'r', 'z'], g=.5, r=.3, z=-.2)))
    tr = T.Tractor(T.Images(*ims), T.Catalog(*srcs))
    for i, I in enumerate(ims):
        I.data = (T.Tractor(T.Images(I), T.Catalog(*[s for s in srcs if s is not None])).getModelImage(0) +
                  noise * texture(I.shape, 50 + i)).astype(np.float32)
    tr.setModelMasks([dict() if d['mask'] is None else
                      dict((s, ModelMask(*d['mask'])) for s in srcs if s is not None) for d in images])
    tr.freezeParam('images')
    if src is not None:
        x, y = ims[0].wcs.positionToPixel(src.pos)
        q = ims[0].wcs.pixelToPosition(x + off[0], y + off[1])
        src.pos.ra, src.pos.dec = q.ra, q.dec
        src.brightness.setParams([v * 1.1 for v in src.brightness.getParams()])
        if kind not in ('psf',):
            src.shape.setParams([v + .05 for v in src.shape.getParams()])
        if kind == 'ser':
            src.sersicindex.setParams([src.sersicindex.getParams()[0] + .1])
    return tr


def gpu():
    from tractor.gpu_optimizer import GpuOptimizer
    return GpuOptimizer('numpy')


def problem(tr, priors=True):
    """The linearised problem from the CPU derivatives, float64: (A, B) over the pixels of the masks"""
    D = tr.getDerivs()
    n = tr.numberOfParams()
    same(len(D), n, 'number of derivative lists')
    A, B = [], []
    for i, I in enumerate(tr.images):
        h, w = I.shape
        a = np.zeros((n, h, w))
        touched = np.zeros((h, w), bool)
        for k, lst in enumerate(D):
            for patch, im_ in lst:
                if im_ is I and patch is not None and patch.patch is not None:
                    patch.addTo(a[k])
                    x0, x1, y0, y1 = patch.getExtent()
                    touched[max(0, y0):y1, max(0, x0):x1] = True
        chi = np.array(tr.getChiImage(i), float)
        A.append((a * I.getInvError())[:, touched].T)
        B.append(chi[touched])
    A, B = np.concatenate(A), np.concatenate(B)
    pv = tr.getLogPriorDerivatives() if priors else None
    if pv is not None:
        rA, cA, vA, pb, mub = pv
        N = max(1 + max(r) for r in rA)
        P = np.zeros((N, n))
        b = np.zeros(N)
        for r, c, v, bb in zip(rA, cA, vA, pb):
            for rr, vv, bbb in zip(r, v, bb):
                P[rr, c] += vv
                b[rr] += bbb
        A, B = np.concatenate((A, P)), np.concatenate((B, b))
    return A, B


def solve(A, B):
    sc = np.sqrt((A**2).sum(0))
    ok = sc > 0
    x = np.zeros(A.shape[1])
    if ok.any():
        x[ok] = np.linalg.lstsq(A[:, ok] / sc[ok], B, rcond=None)[0] / sc[ok]
    return x


PRIORS = [None, 'flux', 'shape', 'pos', 'many']


def setpriors(tr, which):
    src = tr.catalog[0]
    if which is None or src is None:
        return
    if which in ('flux', 'many'):
        src.brightness.addGaussianPrior('r', 100., 5.)
        if which == 'many':
            src.brightness.addGaussianPrior('z', 90., 4.)
    if which in ('shape', 'many') and hasattr(src, 'shape'):
        src.shape.addGaussianPrior('ee1', 0., .05)
        src.shape.addGaussianPrior('logre', .2, .03)
    if which in ('pos', 'many'):
        src.pos.addGaussianPrior('ra', 150., .1 / 3600.)


FREEZE = ['nothing', 'pos', 'brightness', 'flux-g', 'flux-gz', 'shape', 'shape-e1', 'sersic', 'sb', 'sb-r', 'source']


def setfreeze(tr, which):
    """False: not applicable"""
    src = tr.catalog[0]
    sb = tr.catalog[1] if len(tr.catalog) == 2 else None
    if which == 'nothing':
        return True
    if which in ('sb', 'sb-r'):
        if sb is None:
            return False
        sb.freezeParam('brightness') if which == 'sb' else sb.brightness.freezeParam('r')
        return True
    if src is None:
        return False
    if which in ('pos', 'brightness'):
        src.freezeParam(which)
    elif which == 'flux-g':
        src.brightness.freezeParam('g')
    elif which == 'flux-gz':
        src.brightness.freezeParam('g')
        src.brightness.freezeParam('z')
    elif which == 'source':
        if sb is None:
            return False
        tr.catalog.freezeParam(0)
    elif not hasattr(src, 'shape'):
        return False
    elif which == 'shape':
        src.freezeParam('shape')
    elif which == 'shape-e1':
        src.shape.freezeParam('ee1')
    elif which == 'sersic':
        if not hasattr(src, 'sersicindex'):
            return False
        src.freezeParam('sersicindex')
    return True


UTOL, MTOL = 2e-2, 6e-3


def compare_update(ck, tr, g, what, priors=True):
    p0 = list(tr.getParams())
    fl0 = flags(tr)
    X = g.getLinearUpdateDirection(tr, priors=priors, shared_params=False)
    same(list(tr.getParams()), p0, what + ': parameters after asking for an update')
    same(flags(tr), fl0, what + ': frozen state after asking for an update')
    A, B = problem(tr, priors)
    ref = solve(A, B)
    if not np.any(A):
        expect(X is None or not np.any(X), '%s: an update %s without any derivative', what, X)
        return None
    expect(X is not None, what + ': no update')
    same(len(X), len(p0), what + ': length of the update')
    X = np.array(X, float)
    expect(np.all(np.isfinite(X)), '%s: update %s', what, X)
    zero = ~np.any(A, axis=0)
    expect(not np.any(X[zero]), '%s: update of a parameter nothing constrains: %s', what, X)
    # in units of sigma: the update's effect on the model, against its size and that of the model
    size = np.sqrt(sum(((np.array(tr.getModelImage(i), float) * I.getInvError())**2).sum() for i, I in enumerate(tr.images)))
    diff = np.linalg.norm(A.dot(X - ref))
    err = diff / (np.linalg.norm(A.dot(ref)) + MTOL / UTOL * size)
    ck.extra['max_update_error'] = max(ck.extra.get('max_update_error', 0.), float(err))
    if err > UTOL:
        fail('%s: update %s, the CPU derivatives give %s (relative error %.3g)', what, X, ref, err)
    return X


def compare_models(ck, tr, g, what):
    if tr.catalog[0] is None:
        return
    src = tr.catalog[0]
    P = g.gpu_one_source_models(tr)
    ims = [I for I in tr.images if tr._getModelMaskFor(I, src) is not None]
    if not ims:
        expect(P is None, what + ': models without masks')
        return
    same(len(P), len(ims), what + ': number of model patches')
    for p, I in zip(P, ims):
        m = tr.getModelPatch(I, src)
        a, b = np.zeros(I.shape), np.zeros(I.shape)
        p.addTo(a)
        m.addTo(b)
        e = np.abs(a - b).max() / np.abs(b).max()
        ck.extra['max_model_error'] = max(ck.extra.get('max_model_error', 0.), float(e))
        same(tuple(p.getExtent()), tuple(tr._getModelMaskFor(I, src).extent), what + ': extent of the model patch')
        if e > 4e-3:
            fail('%s: model in %s off by %.3g of its peak', what, I.name, e)


def true_lnp(tr):
    """log-probability over the pixels of the masks, from CPU renderings, float64"""
    L = 0.
    for i, I in enumerate(tr.images):
        srcs = [s for s in tr.catalog if s is not None]
        mm = tr._getModelMaskFor(I, srcs[0])
        if mm is None:
            continue
        x0, x1, y0, y1 = mm.extent
        mod = np.zeros(I.shape)
        for s in srcs:
            p = tr.getModelPatch(I, s)
            if p is not None:
                p.addTo(mod)
        c = ((I.data - mod) * I.getInvError())[y0:y1, x0:x1]
        L -= .5 * (c.astype(float)**2).sum()
    return L + tr.getLogPrior()


def compare_try(ck, tr, g, X, what, alphas=None):
    """line search: check what was accepted"""
    ck.step()
    p0 = np.array(tr.getParams(), float)
    fl0 = flags(tr)
    l0 = true_lnp(tr)
    d, alpha = g.tryUpdates(tr, X, **({} if alphas is None else dict(alphas=alphas)))
    if alphas is None:
        alphas = np.append(2.**np.arange(-10, 1), [np.sqrt(2.), 2.])
    p1 = np.array(tr.getParams(), float)
    same(flags(tr), fl0, what + ': frozen state after the line search')
    close(p1 - p0, alpha * np.array(X, float), 1e-4, 1e-9 * np.maximum(1., np.abs(p0)), what + ': parameters moved by alpha*X')
    l1 = true_lnp(tr)
    tol = .02 * abs(d) + .05
    ck.extra['max_dlnp_error'] = max(ck.extra.get('max_dlnp_error', 0.), float(abs((l1 - l0) - d) - .02 * abs(d)))
    if abs((l1 - l0) - d) > tol:
        fail('%s: reported improvement %g, true %g (alpha %g)', what, d, l1 - l0, alpha)
    expect(d >= 0, '%s: negative improvement %g', what, d)
    if alpha == 0:
        expect(d == 0, '%s: improvement without a step', what)
    # the best of the prescribed steps (the CPU search may stop at a rise)
    tr.setParams(p0)
    best = 0.
    Xf = np.array(X, float)
    cap = min([np.inf] + [m / abs(x) for m, x in zip(tr.getMaxStep(), Xf) if m is not None and x != 0])
    lim = min([np.inf] + [(u - p) / x for u, p, x in zip(tr.getUpperBounds(), p0, Xf) if u is not None and x > 0] +
              [(l - p) / x for l, p, x in zip(tr.getLowerBounds(), p0, Xf) if l is not None and x < 0])
    for al in alphas:
        a = min(al, cap, lim)
        tr.setParams(p0 + a * Xf)
        l = true_lnp(tr) - l0
        if not np.isfinite(l) or l < best - .8:
            break
        best = max(best, l)
        if al > cap:
            break
    expect(alpha <= min(alphas[-1], cap, lim) * (1 + 1e-5), '%s: accepted step %g, the limits allow %g', what, alpha, min(alphas[-1], cap, lim))
    expect(alpha == 0 or min(abs(alpha / a - 1) for a in list(alphas) + [cap, lim]) < 1e-5, '%s: accepted step %g is none of those asked for', what, alpha)
    tr.setParams(p1)
    if best > d + .03 * abs(best) + .1:
        fail('%s: accepted alpha %g with improvement %g; a prescribed step improves by %g', what, alpha, d, best)
    return d


def scene_update(ck, kind, sb, imname, dec, posi, frz, pri, cache):
    tr = build(kind, sb, dict(IMAGES)[imname], dec=dec, pos=POS[posi])
    setpriors(tr, pri)
    if not setfreeze(tr, frz):
        return
    g = gpu()
    if cache:
        g.cache_image_params(tr)
    ck.step()
    compare_models(ck, tr, g, 'scene')
    X = compare_update(ck, tr, g, 'scene')
    compare_update(ck, tr, g, 'again')
    if pri is not None:
        compare_update(ck, tr, g, 'without priors', priors=False)
    if X is not None and np.any(X):
        compare_try(ck, tr, g, X, 'line search')
        compare_models(ck, tr, g, 'after the line search')
        compare_update(ck, tr, g, 'after the line search')


OPS = ['cache', 'clear', 'near', 'far', 'flux', 'shape', 'try', 'pickle', 'mask']


def history(ck, kind, sb, imname, ops, pri=None, big=False):
    """a history of moves and searches with the prepared images kept or not"""
    from tractor.patch import ModelMask
    # (the CPU's position derivatives are zero in the outermost pixels of a mask)
    tr = build(kind, sb, dict(IMAGES)[imname], border=1, **dict(dict(pos=(25.3, 23.2)) if imname == 'wide' else {}, **(dict(shape=(2., .2, -.1)) if big else {})))
    setpriors(tr, pri)
    H, W = tr.images[0].shape
    src = tr.catalog[0]
    g = gpu()
    wcs = tr.images[0].wcs
    cached, away = False, False
    for i, op in enumerate(ops):
        ck.step()
        what = 'op %d (%s)' % (i, op)
        if op == 'cache':
            g.cache_image_params(tr)
            cached, away = True, False
        elif op == 'clear':
            g.clear_cached_image_params()
            cached = False
        elif op in ('near', 'far'):
            x, y = wcs.positionToPixel(src.pos)
            d = (1.4, -.7) if op == 'near' else ((-6.2, 5.3) if x > W / 2. else (6.2, -5.3))
            if op == 'far' and imname == 'wide':
                # beyond what the prepared images can hold
                d = (-11.2, 10.3) if x > W / 2. else (12.2, -11.3)
            q = wcs.pixelToPosition(x + d[0], y + d[1])
            src.pos.ra, src.pos.dec = q.ra, q.dec
            away = True
        elif op == 'flux':
            src.brightness.setParams([1.3 * v + 1. for v in src.brightness.getParams()])
        elif op == 'shape':
            if hasattr(src, 'shape'):
                src.shape.setParams([v + d for v, d in zip(src.shape.getParams(), (.2, -.1, .15))])
            else:
                src.brightness.setParams([.5 * v for v in src.brightness.getParams()])
        elif op == 'try':
            X = compare_update(ck, tr, g, what)
            if X is not None:
                compare_try(ck, tr, g, X, what)
        elif op == 'mask':
            if cached:
                # changed images or masks need a new set of prepared images
                g.clear_cached_image_params()
                cached = False
            tr.setModelMasks([dict((s, ModelMask(3, 3, W - 6, H - 5)) for s in tr.catalog if s is not None) for _ in tr.images])
        else:
            import pickle
            g = pickle.loads(pickle.dumps(g))
        same(bool(g.image_params), cached, what + ': prepared images kept')
        if not (cached and away):
            compare_models(ck, tr, g, what)
        compare_update(ck, tr, g, what)
        if pri is not None:
            compare_update(ck, tr, g, what + ' without priors', priors=False)
    X = g.getLinearUpdateDirection(tr, shared_params=False)
    if X is not None:
        compare_try(ck, tr, g, X, 'final line search')
        compare_try(ck, tr, g, -.5 * np.array(X), 'line search uphill')
        compare_try(ck, tr, g, np.array(X), 'line search with given steps', alphas=(.15, .35, .6))
    ck.state((kind, sb, imname, cached, away))


def dip(ck, kind, imname, depth):
    """a line search that passes through a slightly worse place to a better one"""
    tr = build(kind, False, dict(IMAGES)[imname], noise=0.)
    src = tr.catalog[0]
    wcs = tr.images[0].wcs
    src.brightness.setParams([100.] * 3)
    x, y = wcs.positionToPixel(src.pos)
    p0 = list(tr.getParams())
    pos0 = (src.pos.ra, src.pos.dec)
    q = [wcs.pixelToPosition(x - 8. * f, y + 6. * f) for f in (.5, 1.)]
    data = [np.zeros(I.shape) for I in tr.images]
    for pos, f in zip(q, (-depth, 1.)):
        src.pos.ra, src.pos.dec = pos.ra, pos.dec
        for d, I in zip(data, tr.images):
            tr.getModelPatch(I, src).addTo(d, scale=f)
    src.pos.ra, src.pos.dec = pos0
    mod = [tr.getModelImage(i) for i in range(len(data))]
    for I, d, m in zip(tr.images, data, mod):
        I.data = (d + .6 * m).astype(np.float32)
    X = np.zeros(len(p0))
    X[:2] = q[1].ra - pos0[0], q[1].dec - pos0[1]

    def lnp(a):
        tr.setParams(np.array(p0) + a * X)
        l = true_lnp(tr)
        tr.setParams(p0)
        return l
    # noise such that the dip is half a unit of log-probability
    l = np.array([lnp(a) for a in np.append(2.**np.arange(-10, 1), [np.sqrt(2.), 2.])]) - lnp(0.)
    low = l[:-3].min()
    expect(low < 0 and l.max() > 0, 'the scene has a dip: %s', l)
    for I in tr.images:
        I.setInvError((I.getInvError() * np.sqrt(.5 / -low)).astype(np.float32))
    d = compare_try(ck, tr, gpu(), X, 'line search across a dip')
    expect(d > -.25 * l.max() / low, 'a line search across a dip of .5 stopped in front of it: improvement %g, %g is possible', d, -l.max() * .5 / low)


def run(ck):
    th = ck.thorough
    names = [n for n, _ in IMAGES if n != 'wide']
    items = []
    for k, sb in itertools.product(KINDS, (False, True)):
        if k == 'none' and not sb:
            continue
        for n in names:
            for dec, posi in ((20., 0), (-65., 1), (0., 2)):
                items.append((k, sb, n, dec, posi, 'nothing', None, False))
            if not th and n not in ('g', 'rg', 'grr', 'scaled', 'nomask'):
                continue
            for f in FREEZE[1:]:
                items.append((k, sb, n, 20., 0, f, None, False))
            for p in PRIORS[1:]:
                items.append((k, sb, n, 20., 0, 'nothing', p, False))
            items.append((k, sb, n, 20., 0, 'nothing', None, True))
            if th:
                for f, p, c in itertools.product(FREEZE, PRIORS, (False, True)):
                    items.append((k, sb, n, -40., 1, f, p, c))
    ck.section('scenes', '%d scenes: source kind x surface brightness x image lists x declination x position; frozen states; priors; image cache: models, update, line search' % len(items))
    ck.shards(items, lambda sub, it: sub.case('scene %s' % (it,), scene_update, sub, *it))
    n = 3 if th else 2
    seqs = [o for k in range(1, n + 1) for o in itertools.product(OPS, repeat=k)]
    items = [(k, sb, im_, o) for k, sb, im_ in ((('psf', False, 'gr'), ('exp', True, 'grr'), ('ser', False, 'masks')) + ((('psf', True, 'wide'), ('exp', False, 'wide')) if th else ())) for o in seqs]
    if not th:
        items += [(k, sb, 'wide', ('cache',) + o) for k, sb in (('psf', True), ('exp', False)) for o in itertools.product(('near', 'far', 'flux', 'shape', 'try'), repeat=2)]
        items += [('dev', False, 'edge', ('cache',) + o) for o in itertools.product(('near', 'far', 'flux', 'try'), repeat=2)]
    items += [(k, sb, 'wide', ('cache',) + o, pri, True) for k, sb, pri in (('dev', False, 'flux'), ('exp', True, None)) for o in itertools.product(('near', 'far', 'try'), repeat=2)]
    hist = items
    items = [(k, n, d) for k in ('psf', 'gauss', 'exp') for n in ('g', 'gr', 'wide') for d in (.5, 1.)]
    ck.section('dips', '%d line searches that pass through a slightly worse place' % len(items))
    ck.shards(items, lambda sub, it: sub.case('dip %s' % (it,), dip, sub, *it))
    items = hist
    ck.section('histories', '%d histories: all sequences of up to %d of %s: models and update after each, line search at the end' % (len(items), n, ', '.join(OPS)))
    ck.shards(items, lambda sub, it: sub.case('history %s' % (it,), history, sub, *it))
