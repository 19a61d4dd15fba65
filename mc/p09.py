"""
P09: parameter derivatives.

For every source kind, every freeze pattern, several images (pixel and sky
coordinates, Gaussian-mixture and pixelised PSFs), with and without a model
mask: one derivative per thawed parameter, in order, each close to the true
derivative of the model image (central differences with small steps of the
rendered model), nothing else changed.  At the Tractor level, the same for
every freeze pattern of images, calibrations, catalog and sources.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import dense, tan, flags

PSFW = (np.array([.8, .2]), np.array([[0., 0.], [.3, -.2]]), np.array([[[4.5, .6], [.6, 4.]], [[7., 0.], [0., 6.]]]))
SHAPE = (24, 25)
KINDS = ['point', 'gauss', 'exp', 'dev', 'fixcomp', 'comp', 'expsoft', 'galshape', 'sersic', 'devcore', 'sercore', 'const']


def stamp(n=25):
    y, x = np.mgrid[:n, :n] - n // 2
    g = np.exp(-.5 * (x**2 / 4.5 + y**2 / 4.))
    return (g / g.sum()).astype(np.float32)


def images():
    import tractor as T
    from tractor.basics import NullWCS
    from tractor.wcs import TanWcs

    def mk(psf, wcs, sky=None, minval=0., scale=2.):
        im = T.Image(data=texture(SHAPE, 3), inverr=np.ones(SHAPE), psf=psf, wcs=wcs,
                     photocal=T.LinearPhotoCal(scale), sky=sky or T.ConstantSky(1.))
        im.modelMinval = minval
        return im
    gm = lambda: T.GaussianMixturePSF(*[a.copy() for a in PSFW])
    return [('pixel', lambda: mk(gm(), NullWCS(dx=.25))),
            ('pixscale', lambda: mk(gm(), NullWCS(pixscale=.7, dy=.5))),
            ('tan', lambda: mk(gm(), TanWcs(tan(crval=(10., 50.), w=25, h=24, rot=25.)))),
            ('approx', lambda: mk(gm(), TanWcs(tan(crval=(200., -35.), w=25, h=24, rot=-60.)), minval=1e-4)),
            ('approxpix', lambda: mk(gm(), NullWCS(), minval=1e-4)),
            ('negscale', lambda: mk(gm(), NullWCS(dx=.25), scale=-1.5)),
            ('pixpsf', lambda: mk(T.PixelizedPSF(stamp()), NullWCS(dx=.25))),
            ('pixtan', lambda: mk(T.PixelizedPSF(stamp()), TanWcs(tan(crval=(10., 50.), w=25, h=24, rot=25.)))),
            ]


def make(kind, img, xy=(12.4, 11.7), flux=100.):
    import tractor as T
    from tractor.ellipses import EllipseESoft
    from tractor.galaxy import ExpGalaxy, GalaxyShape
    p = img.getWcs().pixelToPosition(*xy)
    if isinstance(p, tuple):
        p = T.PixPos(*p)
    if kind == 'galshape':
        return ExpGalaxy(p, T.Flux(flux), GalaxyShape(2., .6, 40.))
    if kind == 'const':
        from tractor.basics import ConstantSurfaceBrightness
        return ConstantSurfaceBrightness(T.Flux(.05 * flux))
    if kind == 'sersic':
        from tractor.sersic import SersicGalaxy, SersicIndex
        return SersicGalaxy(p, T.Flux(flux), EllipseESoft(.6, .3, -.2), SersicIndex(1.6))
    s = scene.build_source(scene.source(kind, flux=flux, shape=(2., .25, -.15), shape2=(1.8, -.2, .1), flux2=.6 * flux if kind in scene.CORES else 60.))
    s.pos = p
    return s


def leaves(o, pre=()):
    """[(path, owner, index)] of the scalar parameters, in all-parameter order."""
    out = []
    if hasattr(o, 'subs'):
        for i, s in enumerate(o.subs):
            out += leaves(s, pre + (i,))
        return out
    return [(pre + (i,), o, i) for i in range(len(o.getAllParams()))]


def render(src, img, mm=None):
    """Rendered model without approximations, over the image."""
    mv = img.modelMinval
    img.modelMinval = 0.
    try:
        p = src.getModelPatch(img, modelMask=mm)
    finally:
        img.modelMinval = mv
    H, W = img.shape
    return dense(p, (0, W, 0, H))


def truth(src, img, mm=None, f=None):
    """Per leaf: (central-difference derivative, one-sided difference at the object's own step)."""
    f = f or (lambda: render(src, img, mm))
    out = []
    base = f()
    allp = list(src.getAllParams())
    # steps of every parameter, frozen or not: thaw a copy of the question
    steps = all_steps(src)
    for k in range(len(allp)):
        h = steps[k] * (.02 if steps[k] > 1e-7 else 1.)
        q = list(allp)
        q[k] = allp[k] + h
        src.setAllParams(q)
        a = f()
        q[k] = allp[k] - h
        src.setAllParams(q)
        b = f()
        q[k] = allp[k] + steps[k]
        src.setAllParams(q)
        c = f()
        out.append(((a - b) / (2. * h), (c - base) / steps[k]))
    src.setAllParams(allp)
    return out


def all_steps(o):
    c = o.copy() if not hasattr(o, 'images') else o
    if hasattr(c, 'subs'):
        out = []
        for s in c.subs:
            out += all_steps(s)
        return out
    st = flags(c)
    c.thawAllParams() if hasattr(c, 'thawAllParams') else None
    return list(c.getStepSizes())


def patterns(src, thorough):
    """Freeze patterns: all subsets of the top-level members, and within each the single inner freezes."""
    n = len(src.subs)
    for top in itertools.product([0, 1], repeat=n):
        yield top, ()
        inner = [(i, j) for i, s in enumerate(src.subs) if hasattr(s, 'liquid') for j in range(len(s.getAllParams()))]
        for t in inner:
            if top[t[0]]:
                yield top, (t,)
        if thorough:
            for a, b in itertools.combinations(inner, 2):
                if top[a[0]] and top[b[0]]:
                    yield top, (a, b)
        if all(top):
            # one member with everything inside frozen
            for i in range(n):
                yield top, tuple(t for t in inner if t[0] == i)


def apply_pattern(src, top, inner):
    src.thawAllRecursive()
    for i, j in inner:
        src.subs[i].freezeParam(j)
    for i, t in enumerate(top):
        if not t:
            src.freezeParam(i)


def thawed_leaves(src, top, inner):
    out = []
    k = 0
    for i, s in enumerate(src.subs):
        for j in range(len(s.getAllParams())):
            if top[i] and (i, j) not in inner:
                out.append(k)
            k += 1
    return out


def compare(d, true, one, lin, what, interior=None):
    m = np.abs(true).max()
    if interior is not None:
        d, true, one = d[interior], true[interior], one[interior]
    if m == 0:
        m = 1.
    tol = 1e-3 if lin else .16
    e1 = np.abs(d - true).max()
    e2 = np.abs(d - one).max()
    if min(e1 / tol, e2 / 4e-3) > m:
        s = float(np.sum(d * true) / max(1e-300, np.sum(true * true)))
        fail('%s: off by %.3g of the peak of the true derivative (projection %.4g)', what, e1 / m, s)


def interior_of(img, mm, margin=2):
    H, W = img.shape
    x0, x1, y0, y1 = (0, W, 0, H) if mm is None else mm.extent
    w = np.zeros((H, W), bool)
    w[max(0, y0 + margin):max(0, min(H, y1 - margin)), max(0, x0 + margin):max(0, min(W, x1 - margin))] = True
    return w


def check_source(ck, src, img, mm, top, inner, T, kind, nonlin_names=()):
    apply_pattern(src, top, inner)
    L = thawed_leaves(src, top, inner)
    p0 = list(src.getAllParams())
    fl0 = flags(src)
    same(src.numberOfParams(), len(L), 'number of parameters')
    D = src.getParamDerivatives(img, modelMask=mm)
    same(len(D), len(L), 'number of derivatives')
    close(src.getAllParams(), p0, rtol=0, atol=0, what='parameters after asking for derivatives')
    same(flags(src), fl0, 'frozen/thawed state after asking for derivatives')
    H, W = img.shape
    w = interior_of(img, mm)
    names = src.getParamNames()
    for d, k, nm in zip(D, L, names):
        lin = 'brightness' in nm
        compare(dense(d, (0, W, 0, H)), T[k][0], T[k][1], lin, 'd/d(%s)' % nm, w)
        ck.step()
    ck.outcome((kind, top, inner))
    return True


def check_stepped(ck, iname, mk, mm, frozen, sym):
    """Positions differentiated by stepping (on request), one-sided or symmetric."""
    img = mk()
    src = make('point', img)
    t = truth(src, img)
    if sym:
        src.pos.symmetric_derivs = True
    for f in frozen:
        src.pos.freezeParam(f)
    L = [i for i in range(2) if i not in frozen] + [2]
    D = src.getParamDerivatives(img, fastPosDerivs=False, modelMask=mm)
    same(len(D), len(L), 'number of derivatives')
    w = interior_of(img, mm)
    for d, k in zip(D, L):
        a = dense(d, (0, img.shape[1], 0, img.shape[0]))
        e = np.abs(a - t[k][0])[w].max() / np.abs(t[k][0]).max()
        expect(e < (.06 if sym else .2), 'd/d(%d): off by %.3g of its peak', k, e)
        ck.step()


# -- Tractor level --------------------------------------------------------

def make_tractor(variant):
    import tractor as T
    from tractor.basics import NullWCS
    from tractor.wcs import TanWcs
    from tractor.splinesky import SplineSky
    gm = lambda: T.GaussianMixturePSF(*[a.copy() for a in PSFW])
    if variant == 'pixel':
        ims = [T.Image(data=texture(SHAPE, 3), inverr=np.ones(SHAPE), psf=T.NCircularGaussianPSF([2., 2.6], [.7, .3]), wcs=NullWCS(),
                       photocal=T.LinearPhotoCal(2.), sky=T.ConstantSky(1.)),
               T.Image(data=texture((16, 18), 4), inverr=np.ones((16, 18)), psf=gm(), wcs=NullWCS(dx=-2.),
                       photocal=T.LinearPhotoCal(1.), sky=T.ConstantSky(-1.))]
    else:
        ims = [T.Image(data=texture(SHAPE, 3), inverr=np.ones(SHAPE), psf=gm(),
                       wcs=TanWcs(tan(crval=(10., 50.), w=25, h=24, rot=25.)),
                       photocal=T.MagsPhotoCal('r', 22.5), sky=T.ConstantSky(1.)),
               T.Image(data=texture(SHAPE, 5), inverr=np.ones(SHAPE), psf=T.NCircularGaussianPSF([2.2], [1.]),
                       wcs=TanWcs(tan(crval=(10., 50.), w=25, h=24)),
                       photocal=T.MagsPhotoCal('g', 22.), sky=T.ConstantSky(0.))]
    br = (lambda f: T.Flux(f)) if variant == 'pixel' else (lambda f: T.Mags(g=18. - .01 * f, r=17. - .01 * f, order=['g', 'r']))
    srcs = []
    for kind, xy, f in [('point', (10.4, 9.7), 90.), ('exp', (13., 12.5), 120.)]:
        s = make(kind, ims[0], xy)
        s.brightness = br(f)
        srcs.append(s)
    return T.Tractor(ims, srcs)


def tr_nodes(tr):
    """The flag-bearing nodes, top down."""
    out = [('images',), ('catalog',)]
    for i in range(len(tr.images)):
        out.append(('image', i))
        for c in ('psf', 'wcs', 'photocal', 'sky'):
            out.append(('calib', i, c))
    for j in range(len(tr.catalog)):
        out.append(('source', j))
        for k in range(len(tr.catalog[j].subs)):
            out.append(('member', j, k))
    return out


def tr_freeze(tr, node):
    if node[0] in ('images', 'catalog'):
        tr.freezeParam(node[0])
    elif node[0] == 'image':
        tr.images.freezeParam(node[1])
    elif node[0] == 'calib':
        tr.images[node[1]].freezeParam(node[2])
    elif node[0] == 'source':
        tr.catalog.freezeParam(node[1])
    else:
        tr.catalog[node[1]].freezeParam(node[2])


def tr_leaves(tr, frozen):
    """Thawed leaf numbers (in order images, then catalog) under a set of frozen nodes."""
    out = []
    k = 0
    for i, im in enumerate(tr.images):
        for c in ('psf', 'wcs', 'photocal', 'sky'):
            o = getattr(im, c)
            n = len(leaves(o))
            dead = bool({('images',), ('image', i), ('calib', i, c)} & frozen)
            if not dead:
                out += range(k, k + n)
            k += n
    for j, s in enumerate(tr.catalog):
        for q, o in enumerate(s.subs):
            n = len(leaves(o))
            dead = bool({('catalog',), ('source', j), ('member', j, q)} & frozen)
            if not dead:
                out += range(k, k + n)
            k += n
    return out


def check_tractor(ck, tr, frozen, T, masks=None):
    tr.thawAllRecursive()
    for n in frozen:
        tr_freeze(tr, n)
    L = tr_leaves(tr, set(frozen))
    p0 = list(tr.getAllParams())
    fl0 = flags(tr)
    same(tr.numberOfParams(), len(L), 'number of parameters')
    D = tr.getDerivs()
    same(len(D), len(L), 'number of derivative lists')
    close(tr.getAllParams(), p0, rtol=0, atol=0, what='parameters after asking for derivatives')
    same(flags(tr), fl0, 'frozen/thawed state')
    names = tr.getParamNames()
    for d, k, nm in zip(D, L, names):
        got = [np.zeros(im.shape) for im in tr.images]
        for patch, im in d:
            expect(patch is not None, 'derivative list of %s contains None', nm)
            i = [x is im for x in tr.images].index(True)
            H, W = im.shape
            got[i] += dense(patch, (0, W, 0, H))
        for i, im in enumerate(tr.images):
            lin = nm.endswith('sky') or ('brightness' in nm and 'Flux' in nm)
            compare(got[i], T[k][i][0], T[k][i][1], lin, 'd(image %d)/d(%s)' % (i, nm), interior_of(im, None))
            ck.step()
    ck.outcome(tuple(sorted(frozen)))


def check_masks(ck, tr, have, assume, T, rects):
    from tractor.patch import ModelMask
    tr.thawAllRecursive()
    tr.freezeParam('images')
    ns = len(tr.catalog)
    masks = []
    for i, im in enumerate(tr.images):
        masks.append(dict((s, ModelMask(*rects[(i + j) % len(rects)])) for j, s in enumerate(tr.catalog) if have[i * ns + j]))
    p0 = list(tr.getAllParams())
    tr.setModelMasks(masks, assumeMasks=assume)
    D = tr.getDerivs()
    tr.setModelMasks(None)
    close(tr.getAllParams(), p0, rtol=0, atol=0, what='parameters after asking for derivatives')
    same(len(D), tr.numberOfParams(), 'number of derivative lists')
    k0 = len(leaves(tr.images))
    owner = [j for j, s in enumerate(tr.catalog) for q in range(len(leaves(s)))]
    names = tr.getParamNames()
    for n, d in enumerate(D):
        j = owner[n]
        for i, im in enumerate(tr.images):
            H, W = im.shape
            got = np.zeros((H, W))
            cnt = 0
            for patch, im2 in d:
                if im2 is im:
                    got += dense(patch, (0, W, 0, H))
                    cnt += 1
            if not have[i * ns + j]:
                if assume:
                    same(cnt, 0, 'derivatives of a source without mask')
                else:
                    compare(got, T[k0 + n][i][0], T[k0 + n][i][1], False, 'd(image %d)/d(%s)' % (i, names[n]), interior_of(im, None))
                continue
            mm = ModelMask(*rects[(i + j) % len(rects)])
            w = interior_of(im, mm, 0)
            expect(np.all(got[~w] == 0), 'derivative of %s outside the mask', names[n])
            compare(got, T[k0 + n][i][0], T[k0 + n][i][1], False, 'd(image %d)/d(%s)' % (i, names[n]), interior_of(im, mm))
            ck.step()


def check_declared(ck, pattern, kw):
    """A calibration may declare, per parameter, a patch, None (no derivative) or False (please step it)."""
    import tractor as T
    from tractor.utils import ParamList
    from tractor import ducks
    from tractor.patch import Patch

    class Sky3(ParamList, ducks.ImageCalibration):
        def addTo(self, img, scale=1.):
            H, W = img.shape
            v = [a if p is not None else 0. for a, p in zip(self.getAllParams(), pattern)]
            y, x = np.mgrid[:H, :W]
            img += scale * (v[0] + v[1] * x + v[2] * y * y)

        def getParamDerivatives(self, tractor, img, srcs):
            H, W = img.shape
            y, x = np.mgrid[:H, :W].astype(float)
            full = [Patch(0, 0, np.ones((H, W))), Patch(0, 0, x), Patch(0, 0, y * y)]
            return [full[i] if pattern[i] is True else pattern[i] for i in self.getThawedParamIndices()]

    for frozen in itertools.product([0, 1], repeat=3):
        sky = Sky3(1., .5, -.25)
        sky.stepsizes = [.1, .1, .1]
        tr = make_tractor('pixel')
        tr.images[0].sky = sky
        tr.images.freezeAllParams()
        tr.images.thawParam(0)
        tr.images[0].freezeAllBut('sky')
        for i, f in enumerate(frozen):
            if f:
                sky.freezeParam(i)
        D = tr.getDerivs(**kw)
        same(len(D), tr.numberOfParams(), 'number of derivative lists')
        H, W = tr.images[0].shape
        y, x = np.mgrid[:H, :W].astype(float)
        full = [np.ones((H, W)), x, y * y]
        live = [i for i in range(3) if not frozen[i]]
        for i, d in zip(live, D):
            for p, im in d:
                expect(p is not None, 'None in a derivative list')
                expect(im is tr.images[0], 'derivative for another image')
            same(len(d), 0 if pattern[i] is None else 1, 'number of derivative patches')
            if len(d):
                close_img(dense(d[0][0], (0, W, 0, H)), full[i], 1e-2 * full[i].max(), 'declared derivative')
            ck.step()
        close(sky.getAllParams(), [1., .5, -.25], rtol=0, atol=0, what='parameters')


def tr_truth(tr):
    """leaf -> per image (true, one-sided)."""
    f = lambda i: np.array(tr.getModelImage(i), float)
    base = [f(i) for i in range(len(tr.images))]
    L = leaves(tr)
    out = []
    for path, o, j in L:
        st = list(o.getStepSizes())[j]
        p = list(o.getAllParams())
        h = st * .02
        def at(v):
            q = list(p)
            q[j] = v
            o.setAllParams(q)
            return [f(i) for i in range(len(tr.images))]
        a, b, c = at(p[j] + h), at(p[j] - h), at(p[j] + st)
        o.setAllParams(p)
        out.append([((a[i] - b[i]) / (2. * h), (c[i] - base[i]) / st) for i in range(len(tr.images))])
    return out


def run(ck):
    from tractor.patch import ModelMask
    imgs = images()
    cfgs = []
    ck.section('stepped', 'positions differentiated by stepping: images x masks x frozen coordinates x one-sided / symmetric')
    for iname, mk in imgs:
        for m in (None, (2, 1, 21, 21)):
            for fr in ((), (0,), (1,)):
                for sym in (0, 1):
                    ck.case(dict(stepped=iname, mask=m, frozen=fr, symmetric=sym), check_stepped, ck, iname, mk,
                            ModelMask(*m) if m else None, fr, sym)
    for kind in KINDS:
        for iname, mk in imgs:
            masks = [None, (2, 1, 21, 21)]
            if ck.thorough or (kind in ('point', 'exp') and 'pix' not in iname):
                masks.append((4, 3, 17, 16))
            if 'psf' not in iname and iname != 'pixtan':
                masks.append((2, 1, 21, 21, 'b'))
            if kind in ('sersic', 'sercore') and iname.startswith('pixt'):
                continue
            for m in masks:
                cfgs.append((kind, iname, mk, m, (12.4, 11.7), 100.))
    # awkward: off-image, edge, zero and negative flux
    for kind in KINDS:
        for iname, mk in (imgs if ck.thorough else [imgs[0], imgs[2]]):
            for xy, fl in [((12.4, 11.7), -30.), ((12.4, 11.7), 0.), ((-3., 5.), 50.), ((500., 500.), 50.), ((24.8, 23.6), 50.)]:
                if iname in ('pixpsf', 'pixtan', 'approx', 'approxpix'):
                    continue
                cfgs.append((kind, iname, mk, None, xy, fl))

    def shard(sub, k):
        sub.section('sources', 'source kinds x images x masks x freeze patterns (all member subsets, inner single%s freezes)' % (
            '/double' if sub.thorough else ''))
        for i, (kind, iname, mk, m, xy, fl) in enumerate(cfgs):
            if i % 32 != k:
                continue
            img = mk()
            src = make(kind, img, xy, fl)
            mm = None
            if m is not None:
                mm = ModelMask(*m[:4]) if len(m) == 4 else ModelMask(m[0], m[1], np.ones((m[3], m[2]), bool))
            T = truth(src, img)
            for top, inner in patterns(src, sub.thorough and fl == 100.):
                sub.case(dict(src=kind, img=iname, mask=m, xy=xy, flux=fl, thawed=top, inner=inner), check_source, sub, src, img,
                         mm, top, inner, T, kind)
    ck.shards(range(32), shard)

    def shardB(sub, arg):
        variant, part, nparts = arg
        tr = make_tractor(variant)
        N = tr_nodes(tr)
        T = tr_truth(tr)
        sub.section('tractor', 'freeze sets over %d nodes: all sets of up to %d frozen nodes, all complements of up to 2' % (
            len(N), 3 if sub.thorough else 2))
        sets = []
        for r in range(0, 4 if sub.thorough else 3):
            sets += list(itertools.combinations(N, r))
        leavesN = [n for n in N if n[0] in ('calib', 'member')]
        for r in range(0, 3):
            for c in itertools.combinations(leavesN, r):
                sets.append(tuple(n for n in leavesN if n not in c))
        for i, fz in enumerate(sets):
            if i % nparts == part:
                sub.case(dict(scene=variant, frozen=fz), check_tractor, sub, tr, fz, T)

        if part:
            return
        sub.section('masked tractor', 'all assignments of masks to (image, source) x assumed or not')
        for have in itertools.product([0, 1], repeat=4):
            for assume in (True, False):
                for rects in [[(6, 5, 11, 10)], [(0, 0, 16, 14), (5, 6, 11, 9)]]:
                    sub.case(dict(scene=variant, have=have, assume=assume, rects=rects), check_masks, sub, tr, have, assume, T, rects)
    ck.shards([(v, p, 4) for v in ('pixel', 'sky') for p in range(4)], shardB)
    ck.section('declared', 'all patterns of declared/None/stepped derivatives of a 3-parameter calibration x freeze states')
    for pattern in itertools.product([True, None, False], repeat=3):
        for kw in [{}, dict(minsb=0.)]:
            if kw:
                continue
            ck.case(dict(pattern=pattern), check_declared, ck, pattern, kw)
    ck.assumptions += ['a derivative is accepted within 16% of the peak of the true derivative (the code uses one-sided steps and '
                       'pixel differences), or within 0.4% of the one-sided difference at the object\'s own step; '
                       'derivatives with respect to linear parameters within 0.1%',
                       'a two-pixel border of the image or mask is not compared (pixel differences are zero there)']
