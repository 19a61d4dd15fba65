"""
P10: the log-probability.

A: every pattern of masked pixels (zero inverse error) of a small image, for
   several scenes: log-likelihood = -1/2 sum of squared normalised residuals of
   the unmasked pixels, whatever the masked pixels contain.
B: every list of images x sources: chi images, likelihood = sum over images,
   source subsets, log-prob = log-likelihood + log-prior (Gaussian priors on
   every subset of parameters), in every freeze state of the members.
C: parameter histories including illegal and non-finite values: -inf exactly
   when the prior is -inf, never NaN, and everything recovers afterwards.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, close_img, same, texture

JUNK = [0., -7., 1e6, 12345.]


def build(ims, S, junk=0.):
    import tractor as T
    out = []
    for im in ims:
        I = scene.build_image(im)
        d = np.array(I.getImage())
        for (y, x) in im['zero']:
            d[y, x] = junk
        I.data = d
        out.append(I)
    return T.Tractor(out, [scene.build_source(s) for s in S])


def ref_chi(ims, S):
    out = []
    for im in ims:
        d = 2. * texture(im['shape'], im['seed'])
        out.append((d - scene.ref_image(S, im)) * scene.inverr(im))
    return out


def ltol(ref, n):
    return 2e-4 * max(1., abs(ref)) + 1e-3 * n


def check_mask(ck, S, im, bits):
    H, W = im['shape']
    zero = tuple((i // W, i % W) for i in range(H * W) if bits[i])
    im = dict(im, zero=zero)
    chi = ref_chi([im], S)
    L = -.5 * sum((c**2).sum() for c in chi)
    vals = []
    for junk in JUNK:
        tr = build([im], S, junk)
        l = tr.getLogLikelihood()
        expect(abs(l - L) <= ltol(L, 1), 'log-likelihood %r, expected %r with junk %g in masked pixels', l, L, junk)
        vals.append(l)
        c = tr.getChiImage(0)
        m = np.ones((H, W), bool)
        for z in zero:
            m[z] = False
        expect(np.all(c[~m] == 0.), 'non-zero residual at a masked pixel')
        close_img(c[m], chi[0][m], 2e-3, 'normalised residuals')
        p = tr.getLogProb()
        expect(abs(p - L) <= ltol(L, 1), 'log-probability %r, expected %r', p, L)
        ck.step(3)
    expect(len(set(vals)) == 1, 'log-likelihood depends on the contents of masked pixels: %s', vals)
    ck.outcome(round(L, 3))


def check_lists(ck, kinds, nim, priors, frozen, variant):
    ims = [scene.image(shape=(7, 8), sky=1., scale=1.5, seed=1), scene.image(shape=(6, 9), psf=scene.PSF1, dx=-1.5, dy=.5,
           pixscale=.8, sky=-1., seed=2), scene.image(shape=(8, 5), psf=scene.PSF1, dy=-2., seed=3)][:nim]
    S = [scene.source(k, *[(3.3, 2.8), (5., 4.), (1., 6.)][i], flux=[30., -8., 12.][i]) for i, k in enumerate(kinds)]
    tr = build(ims, S)
    chi = ref_chi(ims, S)
    L = -.5 * sum((c**2).sum() for c in chi)
    lp = 0.
    for (si, which) in priors:
        if si >= len(S):
            continue
        src = tr.catalog[si]
        src.pos.addGaussianPrior(which, 3., .5)
        if not (('catalog',) in frozen or ('src', si) in frozen or ('member', si, 0) in frozen):
            lp += -.5 * ((S[si][which] - 3.) / .5)**2
    for f in frozen:
        if f[0] in ('images', 'catalog'):
            tr.freezeParam(f[0])
        elif f[0] == 'src' and f[1] < len(S):
            tr.catalog.freezeParam(f[1])
        elif f[0] == 'member' and f[1] < len(S):
            tr.catalog[f[1]].freezeParam(f[2])
        elif f[0] == 'image' and f[1] < nim:
            tr.images.freezeParam(f[1])
    p0 = list(tr.getAllParams())
    close(tr.getLogPrior(), lp, atol=1e-9, what='log-prior')
    l = tr.getLogLikelihood()
    expect(abs(l - L) <= ltol(L, nim), 'log-likelihood %r, expected %r', l, L)
    p = tr.getLogProb()
    expect(abs(p - (L + lp)) <= ltol(L, nim) + 1e-9 * abs(lp), 'log-probability %r, expected %r', p, L + lp)
    C = list(tr.getChiImages())
    same(len(C), nim, 'number of residual images')
    for i in range(nim):
        close_img(C[i], chi[i], 2e-3, 'residual image %d' % i)
        close_img(tr.getChiImage(i), chi[i], 2e-3, 'residual image %d by index' % i)
        close_img(tr.getChiImage(img=tr.images[i]), chi[i], 2e-3, 'residual image %d by image' % i)
        for sub in itertools.product([0, 1], repeat=len(S)):
            c = tr.getChiImage(i, srcs=[tr.catalog[j] for j in range(len(S)) if sub[j]])
            r = ref_chi([ims[i]], [S[j] for j in range(len(S)) if sub[j]])[0]
            close_img(c, r, 2e-3, 'residuals with sources %s' % (sub,))
            ck.step()
    close(tr.getAllParams(), p0, rtol=0, atol=0, what='parameters afterwards')
    ck.step(3)
    ck.outcome((round(L, 2), round(lp, 4)))


BAD = [('re', -1.), ('e1', 1.2), ('e2', -1.5), ('flux', np.nan), ('flux', np.inf), ('sky', np.nan), ('sky', np.inf), ('x', np.nan),
       ('re', 1.2), ('e1', .3), ('flux', -50.), ('sky', 2.), ('x', 5.)]


def check_history(ck, kind, seq):
    import tractor as T
    im = scene.image(shape=(7, 8), sky=1., scale=1.5, seed=1)
    s = scene.source(kind, 3.3, 2.8, flux=30.)
    tr = build([im], [s])
    cur = dict(re=s['shape'][0], e1=s['shape'][1], e2=s['shape'][2], flux=30., x=3.3, sky=1.)
    src = tr.catalog[0]
    shape = src.shape if hasattr(src, 'shape') else None
    for name, v in seq:
        cur[name] = v
        if name == 'sky':
            tr.images[0].sky.setParams([v])
        elif name == 'flux':
            src.brightness.setParams([v])
        elif name == 'x':
            src.pos.setParams([v, 2.8])
        elif shape is not None:
            q = shape.getParams()
            q[['re', 'e1', 'e2'].index(name)] = v
            shape.setParams(q)
        ck.step()
    illegal = shape is not None and (cur['re'] < 0 or np.hypot(cur['e1'], cur['e2']) >= 1.)
    finite = all(np.isfinite(v) for v in cur.values())
    if illegal:
        same(tr.getLogPrior(), -np.inf, 'log-prior of an illegal shape')
        same(tr.getLogProb(), -np.inf, 'log-probability of an illegal shape')
    elif finite:
        s2 = dict(s, flux=cur['flux'], x=cur['x'], shape=(cur['re'], cur['e1'], cur['e2']))
        im2 = dict(im, sky=cur['sky'])
        L = -.5 * sum((c**2).sum() for c in ref_chi([im2], [s2]))
        p = tr.getLogProb()
        expect(abs(p - L) <= ltol(L, 1), 'log-probability %r, expected %r', p, L)
        ck.outcome(round(L, 3))
    elif not (np.isnan(cur['x']) and kind != 'point'):
        # not finite: must not look like a number that can win (nor be NaN)
        try:
            p = tr.getLogProb()
        except Exception as e:
            if not np.isnan(cur['x']):
                raise
            return
        expect(not np.isnan(p), 'log-probability is NaN')
        if not np.isfinite(cur['sky']):
            same(p, -np.inf, 'log-probability with a non-finite sky')


def check_hidden(ck, bt, band, val, prior, frozen, how):
    """A parameter no image sees (a band without images), with or without a prior on it."""
    import tractor as T
    from tractor.basics import NullWCS
    vals = dict(g=5., r=7.)
    if bt == 'nano':
        br = T.NanoMaggies(order=['g', 'r'], **vals)
        pc = T.LinearPhotoCal(1., band='r')
    else:
        vals = dict(g=19., r=18.)
        br = T.Mags(order=['g', 'r'], **vals)
        pc = T.MagsPhotoCal('r', 22.5)
    im = T.Image(data=texture((6, 7), 1), inverr=np.ones((6, 7)), psf=T.GaussianMixturePSF(*[a.copy() for a in scene.PSF1]),
                 wcs=NullWCS(), photocal=pc, sky=T.ConstantSky(.5))
    s = T.PointSource(T.PixPos(3., 2.5), br)
    tr = T.Tractor([im], [s])
    L0 = tr.getLogLikelihood()
    mu = vals[band] + .7
    if prior:
        br.addGaussianPrior(band, mu, .5)
    if frozen == 'param':
        br.freezeParam(band)
    elif frozen == 'bright':
        s.freezeParam('brightness')
    elif frozen == 'src':
        tr.catalog.freezeParam(0)
    active = prior and frozen in ('no', 'param')       # the prior belongs to the object (see P04)
    for step in range(2):
        v = val if step == 0 else vals[band]
        setattr(br, band, v)
        if how == 'tractor' and frozen == 'no':
            p = tr.getParams()
            p[[n.split('.')[-1] for n in tr.getParamNames()].index(band)] = v
            tr.setParams(p)
        lp = tr.getLogProb()
        expect(not np.isnan(lp), 'log-probability is NaN with %s = %r', band, v)
        if np.isfinite(v):
            want = (L0 if band == 'g' or v == vals[band] else tr.getLogLikelihood()) + (-.5 * ((v - mu) / .5)**2 if active else 0.)
            expect(abs(lp - want) < 1e-6 * max(1., abs(want)), 'log-probability %r, expected %r', lp, want)
        elif band == 'g':
            if active:
                same(lp, -np.inf, 'log-probability with a non-finite value under a prior')
            else:
                expect(abs(lp - L0) < 1e-6 * max(1., abs(L0)), 'log-probability %r, expected %r (no image sees this band)', lp, L0)
        elif active:
            same(lp, -np.inf, 'log-probability with a non-finite value under a prior')
        ck.step()
        ck.outcome(round(lp, 4) if np.isfinite(lp) else str(lp))


# -- the data and errors, however they are set --------------------------------

SETS = [('setImage', 1), ('setImage', 2), ('setInvError', 1), ('setInvError', 2), ('setInvvar', 1), ('setInvvar', 2),
        ('setSky', 1), ('setPsf', 1), ('setPhotoCal', 1), ('data', 3), ('inverr', 3), ('pixel', 5.), ('ask',), ('copy',)]


def check_setters(ck, start, seq):
    """Histories of replacing the parts of an image; the accessors and the probability follow."""
    import tractor as T
    from tractor.basics import NullWCS, NullPhotoCal
    H, W = 5, 6
    D = {k: texture((H, W), 20 + k) for k in range(4)}
    E = {k: .5 + .5 * np.abs(texture((H, W), 30 + k)) for k in range(4)}
    S = [scene.source('point', 2.3, 1.8, flux=20.)]
    cur = dict(shape=(H, W), psf=scene.PSF1, dx=0., dy=0., pixscale=1., scale=1., sky=0., seed=0, zero=())
    kw = {}
    if start == 'inverr':
        kw['inverr'] = E[0].copy()
    elif start == 'invvar':
        kw['invvar'] = E[0]**2
    else:           # both: inverr wins
        kw['inverr'] = E[0].copy()
        kw['invvar'] = E[1]**2
    if start != 'both':
        kw['wcs'] = NullWCS()
        kw['sky'] = T.ConstantSky(0.)
        kw['photocal'] = T.LinearPhotoCal(1.)
    mk = lambda p: T.GaussianMixturePSF(*[a.copy() for a in p])
    im = T.Image(data=D[0].copy(), psf=mk(scene.PSF1), **kw)
    tr = T.Tractor([im], [scene.build_source(S[0])])
    d, e = D[0].copy(), E[0].copy()
    for op in seq:
        o = op[0]
        if o == 'setImage':
            d = D[op[1]].copy()
            im.setImage(D[op[1]].copy())
        elif o == 'setInvError':
            e = E[op[1]].copy()
            im.setInvError(E[op[1]].copy())
        elif o == 'setInvvar':
            e = E[op[1]].copy()
            im.setInvvar(E[op[1]]**2)
        elif o == 'data':
            d = D[op[1]].copy()
            im.data = D[op[1]].copy()
        elif o == 'inverr':
            e = E[op[1]].copy()
            im.inverr = E[op[1]].copy()
        elif o == 'pixel':
            d[2, 3] = op[1]
            im.getImage()[2, 3] = op[1]
        elif o == 'setSky':
            cur['sky'] = 2.
            im.setSky(T.ConstantSky(2.))
        elif o == 'setPsf':
            cur['psf'] = scene.PSF2
            im.setPsf(mk(scene.PSF2))
        elif o == 'setPhotoCal':
            cur['scale'] = 3.
            im.photocal = T.LinearPhotoCal(3.)
        elif o == 'ask':
            tr.getLogProb()
            tr.getChiImage(0)
        elif o == 'copy':
            im = im.copy()
            tr = T.Tractor([im], list(tr.catalog))
        ck.step()
    close(im.getImage(), d, rtol=0, atol=0, what='pixels')
    close(im.getInvError(), e, rtol=1e-12, what='inverse errors')
    close(im.getInvvar(), e**2, rtol=1e-12, what='inverse variances')
    close(im.invvar, e**2, rtol=1e-12, what='inverse variances')
    same((im.getWidth(), im.getHeight(), tuple(im.getShape()), tuple(im.shape), im.numberOfPixels()), (W, H, (H, W), (H, W), H * W),
         'size of the image')
    chi = (d - scene.ref_image(S, cur)) * e
    close_img(tr.getChiImage(0), chi, 2e-3, 'normalised residuals')
    L = -.5 * (chi**2).sum()
    for what, l in (('log-likelihood', tr.getLogLikelihood()), ('log-probability', tr.getLogProb())):
        expect(abs(l - L) <= ltol(L, 1), '%s %r, expected %r', what, l, L)
    ck.outcome(round(L, 3))


def run(ck):
    def shardH(sub, k):
        sub.section('hidden parameters', 'fluxes of bands with and without images x values (nan, +-inf, legal) x priors x freezing')
        for bt in ('nano', 'mags'):
            for band in ('g', 'r'):
                for val in (np.nan, np.inf, -np.inf, -3., 0., 6.):
                    for prior in (0, 1):
                        for fr in ('no', 'param', 'bright', 'src'):
                            for how in ('attr', 'tractor'):
                                if k == 0:
                                    sub.case(dict(bright=bt, band=band, val=str(val), prior=prior, frozen=fr, how=how), check_hidden,
                                             sub, bt, band, val, prior, fr, how)
        n = 4 if sub.thorough else 3
        sub.section('setters', 'all sequences of up to %d replacements of parts of an image over %d, from 3 ways of building it' % (
            n, len(SETS)))
        for start in ('inverr', 'invvar', 'both'):
            if k == 0:
                sub.case([start, ()], check_setters, sub, start, ())
            for rest in itertools.product(SETS, repeat=n - 1):
                if sub.thorough and start == 'both' and rest[0] != rest[1]:
                    continue
                seq = (SETS[k],) + rest
                sub.case([start, seq], check_setters, sub, start, seq)
    ck.shards(range(len(SETS)), shardH)
    H, W = 3, 3
    scenes = [([scene.source('point', 1.2, .8, flux=20.)], scene.image(shape=(H, W), sky=1., scale=2.)),
              ([scene.source('exp', 1.2, .8, flux=20., shape=(.7, .2, .1)), scene.source('point', 0., 2.5, flux=-5.)],
               scene.image(shape=(H, W), psf=scene.PSF1, sky=-2.))]
    if ck.thorough:
        scenes.append(([], scene.image(shape=(3, 4), sky=.5)))
        scenes.append(([scene.source('dev', 1.2, .8, flux=20., shape=(.7, .2, .1))], scene.image(shape=(3, 4), sky=.5)))

    def shardA(sub, k):
        sub.section('masks', 'all patterns of masked pixels of a 3x3 image (thorough: also 3x4) x %d junk values' % len(JUNK))
        for si, (S, im) in enumerate(scenes):
            n = int(np.prod(im['shape']))
            for c in range(k, 2**n, 16):
                bits = [(c >> i) & 1 for i in range(n)]
                sub.case(dict(scene=si, masked=''.join(map(str, bits))), check_mask, sub, S, im, bits)
    ck.shards(range(16), shardA)

    lists = [()] + [(k,) for k in scene.KINDS + scene.CORES] + list(itertools.product(['point', 'exp', 'fixcomp'], repeat=2))
    if ck.thorough:
        lists = [()] + [(k,) for k in scene.KINDS + scene.CORES] + list(itertools.product(scene.KINDS, repeat=2)) + \
            list(itertools.product(['point', 'gauss', 'comp'], repeat=3))
    terms = [(0, 'x'), (0, 'y'), (1, 'y')]
    frz = [(), (('images',),), (('catalog',),), (('src', 0),), (('member', 0, 0),), (('member', 0, 1),), (('image', 0),),
           (('src', 1), ('member', 0, 1))]

    def shardB(sub, k):
        sub.section('lists', 'image lists x source lists x all subsets of %d prior terms x %d freeze states' % (len(terms), len(frz)))
        i = 0
        for ks in lists:
            for nim in (0, 1, 2, 3):
                for r in range(len(terms) + 1):
                    for pr in itertools.combinations(terms, r):
                        for fz in frz:
                            i += 1
                            if i % 32 != k:
                                continue
                            if any(t[0] >= len(ks) for t in pr):
                                continue
                            if not sub.thorough and nim in (0, 3) and r not in (0, 3):
                                continue
                            sub.case(dict(srcs=ks, images=nim, priors=pr, frozen=fz), check_lists, sub, ks, nim, pr, fz, None)
    ck.shards(range(32), shardB)

    def shardL(sub, how):
        sub.section('memory layouts', 'image arrays in %s order x image lists x source lists' % ', '.join(scene.LAYOUTS))
        for ks in lists:
            for nim in (1, 2, 3):
                sub.case(dict(layout=how, srcs=ks, images=nim), scene.laid, how, check_lists, sub, ks, nim, (), (), None)
    ck.shards(scene.LAYOUTS, shardL)

    def shardC(sub, k):
        depth = 4 if sub.thorough else 3
        sub.section('histories', 'all sequences of %d parameter settings over %d values (illegal and non-finite included)' % (
            depth, len(BAD)))
        for kind in ('exp', 'point'):
            for rest in itertools.product(BAD, repeat=depth - 1):
                seq = (BAD[k],) + rest
                sub.case(dict(src=kind, seq=seq), check_history, sub, kind, seq)
    ck.shards(range(len(BAD)), shardC)
    ck.assumptions += ['pixel values are finite (a masked NaN pixel is not a supported input)', 'Gaussian-mixture PSF scenes as in P06']
