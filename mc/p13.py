"""
P13: the update direction is the least-squares solution.

For every scene of a grid (sources, images, freeze patterns, masked pixels,
priors, shared parameters, options) the update direction of every optimiser is
compared with a dense float64 least-squares solution of
    || A dp - b ||^2,   A = d(model)/d(param) * inverse error (+ prior rows),
with A assembled densely from the derivative patches (their values are the
subject of P09) and b from the residuals of the independent reference renderer.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, same, texture
from mc.p11 import optimizers
from mc.zoo import dense

IMS = [scene.image(shape=(11, 12), psf=scene.PSF2, sky=.5, scale=1.5, seed=1),
       scene.image(shape=(10, 9), psf=scene.PSF1, dx=-1.5, dy=.5, pixscale=.8, sky=-1., seed=2),
       scene.image(shape=(7, 13), psf=scene.PSF1, dx=0., dy=-2., seed=3)]
ZEROS = [(), ((5, 6), (4, 3), (0, 0)), tuple((y, x) for y in range(7) for x in range(5, 9))]
POS = [(5.8, 5.2), (3.4, 7.1), (7.9, 3.3)]
FLUX = [80., 40., 60.]


def srcs(kinds, far):
    S = []
    for i, k in enumerate(kinds):
        s = scene.source(k, POS[i][0], POS[i][1], flux=FLUX[i])
        S.append(s)
    if far:
        S[-1] = dict(S[-1], x=500., y=-400.)
    return S


def build(kinds, nim, zi, frozen, priors, shared, junk, far, order, sky, opt=None, masks=False):
    import tractor as T
    S = srcs(kinds, far)
    ims = [dict(IMS[i], zero=tuple(z for z in ZEROS[zi] if z[0] < IMS[i]['shape'][0] and z[1] < IMS[i]['shape'][1]))
           for i in range(nim)]
    truth = [scene.with_params(s, np.array(scene.params(s)) * 1.05) if not far or s is not S[-1] else s for s in S]
    timgs = []
    data = []
    for im in ims:
        d = scene.ref_image(truth, im) + .5 * texture(im['shape'], 20 + im['seed'])
        data.append(d)
        dd = d.copy()
        for z in im['zero']:
            dd[z] = junk
        timgs.append(scene.build_image(im, data=dd))
    objs = [scene.build_source(s) for s in S]
    names = [['pos'], ['brightness', 'brightnessExp', 'brightnessDev'], ['shape', 'shapeExp', 'shapeDev']]
    for si in range(len(S)):
        for fi, ns in enumerate(names):
            for n in ns:
                if frozen[fi] and hasattr(objs[si], n):
                    objs[si].freezeParam(n)
    if shared == 'flux':
        for o in objs[1:]:
            o.brightness = objs[0].brightness
        S = [dict(s, flux=FLUX[0]) for s in S]
    if shared == 'pos':
        for o in objs[1:]:
            o.pos = objs[0].pos
        S = [dict(s, x=S[0]['x'], y=S[0]['y']) for s in S]
    tr = T.Tractor([timgs[i] for i in order], objs, **({} if opt is None else dict(optimizer=opt)))
    if sky:
        for t in timgs:
            t.freezeAllBut('sky')
    else:
        tr.freezeParam('images')
    prows = []      # (source, member, index, mean, sigma)
    for (si, n, k, mu, sg) in priors:
        if si < len(S) and not frozen[0]:
            objs[si].pos.addGaussianPrior(k, mu, sg)
            prows.append((si, k, mu, sg))
    if masks:
        from tractor.patch import ModelMask
        tr.setModelMasks([dict((o, ModelMask(0, 0, t.shape[1], t.shape[0])) for o in objs) for t in tr.images])
    return tr, S, ims, data, prows


def columns(tr, S, ims, frozen, sky, order):
    """Derivative columns: [(label, [image arrays])], in parameter order."""
    labels = labelled(S, frozen, sky, order)
    D = tr.getDerivs()
    same(len(D), len(labels), 'number of derivatives')
    pos = dict((id(tr.images[k]), i) for k, i in enumerate(order))
    cols = []
    for lab, d in zip(labels, D):
        out = [np.zeros(im['shape']) for im in ims]
        for patch, img in d:
            i = pos[id(img)]
            H, W = ims[i]['shape']
            out[i] += dense(patch, (0, W, 0, H))
        cols.append((lab, out))
    return cols


def labelled(S, frozen, sky, order):
    cols = []
    if sky:
        for i in order:
            cols.append(('sky', i))
    for si, s in enumerate(S):
        n = len(scene.params(s))
        groups = [0, 0, 1] + [2] * (n - 3)
        if s['kind'] == 'comp':
            groups = [0, 0, 1, 2, 2, 2, 1, 2, 2, 2]
        if s['kind'] == 'devcore':
            groups = [0, 0, 1, 2, 2, 2, 1]
        if s['kind'] == 'sercore':
            groups = [0, 0, 1, 2, 2, 2, 3, 1]
        if s['kind'] == 'fixcomp':
            groups = [0, 0, 1, 3] + [2] * 6
        cols += [(si, j) for j, g in enumerate(groups) if g == 3 or not frozen[g]]
    return cols


def system(S, ims, data, cols, prows, use_priors, sharing):
    ie = [scene.inverr(im) for im in ims]
    A = np.array([np.hstack([(c * e).ravel() for c, e in zip(col, ie)]) for _, col in cols]).T
    b = np.hstack([((d - scene.ref_image(S, im)) * e).ravel() for d, im, e in zip(data, ims, ie)])
    if use_priors and prows:
        rows, rb = [], []
        for (si, k, mu, sg) in prows:
            j = 'xy'.index(k)
            for ci, (lab, _) in enumerate(cols):
                if lab == (si, j):
                    r = np.zeros(len(cols))
                    r[ci] = 1. / sg
                    rows.append(r)
                    rb.append((mu - (S[si]['x'] if j == 0 else S[si]['y'])) / sg)
        if rows:
            A = np.vstack([A, rows])
            b = np.hstack([b, rb])
    # merge the columns of shared parameters
    keys = [sharing(lab) for lab, _ in cols]
    uniq = []
    for k in keys:
        if k not in uniq:
            uniq.append(k)
    M = np.zeros((len(cols), len(uniq)))
    for i, k in enumerate(keys):
        M[i, uniq.index(k)] = 1.
    return A, b, M


def solve(A, b, damp=0., scale=True):
    n = np.sqrt((A**2).sum(0))
    n0 = np.where(n > 0, n, 1.)
    if not scale:
        n0 = np.ones(len(n))
    As = A / n0
    if damp:
        As = np.vstack([As, damp * np.eye(A.shape[1])])
        b = np.hstack([b, np.zeros(A.shape[1])])
    x = np.linalg.lstsq(As, b, rcond=1e-10)[0]
    return x / n0, n


PRIORS = [(), ((0, 'pos', 'x', 5., .02),), ((0, 'pos', 'y', 6., .05), (1, 'pos', 'x', 3., .1), (0, 'pos', 'x', 6., 1.))]


def check(ck, name, cls, kinds, nim, zi, frozen, pi, shared, far, sky, kw, order, masks):
    order = tuple(order)
    X = None
    for junk in (0., 1e4):
        tr, S, ims, data, prows = build(kinds, nim, zi, frozen, PRIORS[pi], shared, junk, far, order, sky, masks=masks)
        cols = columns(tr, S, ims, frozen, sky, order)
        same(tr.numberOfParams(), len(cols), 'number of parameters')
        sharing = lambda lab: lab
        if shared == 'flux':
            sharing = lambda lab: ('f',) if lab[0] != 'sky' and lab[1] == 2 else lab
        elif shared == 'pos':
            sharing = lambda lab: ('p', lab[1]) if lab[0] != 'sky' and lab[1] < 2 else lab
        p = list(tr.getParams())
        opt = cls()
        derivs = tr.getDerivs()
        kw = dict(kw)
        if name in ('dense', 'smarter') or not shared:
            kw.setdefault('shared_params', False if not shared else True)
        x = opt.getUpdateDirection(tr, derivs, **kw)
        close(tr.getParams(), p, rtol=0, atol=0, what='parameters after computing the update')
        if len(cols) == 0:
            expect(x is None or len(x) == 0, 'update %r without parameters', x)
            return
        A, b, M = system(S, ims, data, cols, prows, kw.get('priors', True), sharing)
        Am = A.dot(M)
        variance = kw.get('variance', False)
        if variance and x is not None and len(x):
            x, var = x
        xr, n = solve(Am, b, kw.get('damp', 0.), kw.get('scale_columns', True))
        if not np.any(Am):
            expect(x is None or len(x) == 0 or not np.any(x), 'update %r with nothing to fit', x)
            return
        same(len(x), len(cols), 'length of the update')
        expect(np.all(np.isfinite(x)), 'update %s', x)
        ref = M.dot(xr)
        nn = M.dot(n)
        # parameters which touch nothing stay put
        for i, (lab, _) in enumerate(cols):
            if nn[i] == 0:
                expect(abs(x[i]) < 1e-6, 'parameter %s does not touch the data but is updated by %r', lab, x[i])
        tol = 3e-3 * max(1., np.linalg.norm(xr * n))
        bad = np.abs((x - ref)) * nn
        expect(np.all(bad <= tol), 'update %s, expected %s (sigmas off: %s, tol %.3g)', np.array(x), ref, bad, tol)
        if shared:
            for i in range(len(cols)):
                for j in range(i):
                    if sharing(cols[i][0]) == sharing(cols[j][0]):
                        expect(x[i] == x[j], 'shared parameter updated by %r and by %r', x[i], x[j])
        if variance:
            with np.errstate(divide='ignore'):
                close(var, 1. / nn**2, rtol=5e-3, atol=0, what='variance')
        if X is not None:
            close(x, X, rtol=1e-6, atol=1e-9, what='update with other contents of masked pixels')
        X = np.array(x)
        ck.step()
    ck.state((kinds, nim, zi, frozen, pi, shared, far, sky, order))
    ck.outcome(tuple(np.round(X, 3)))


def check_extras(ck, kinds, nim, frozen, pi):
    """Column scales, matrix, residual images passed in, getLinearUpdateDirection, just_variance."""
    from tractor.lsqr_optimizer import LsqrOptimizer
    order = tuple(range(nim))
    mk = lambda: build(kinds, nim, 1, frozen, PRIORS[pi], None, 0., False, order, False)
    tr, S, ims, data, prows = mk()
    cols = columns(tr, S, ims, frozen, False, order)
    if not cols:
        return
    A, b, M = system(S, ims, data, cols, prows, True, lambda l: l)
    n = np.sqrt((A**2).sum(0))
    opt = LsqrOptimizer()
    close(opt.getUpdateDirection(tr, tr.getDerivs(), scales_only=True), n, rtol=3e-3, atol=1e-3 * n.max(), what='column scales')
    a = opt.getUpdateDirection(tr, tr.getDerivs(), get_A_matrix=True, scale_columns=False)
    a = np.asarray(a.todense())
    same(a.shape[1], len(cols), 'matrix columns')
    close(np.sort(np.abs(a).sum(0)), np.sort(np.abs(A).sum(0)), rtol=5e-3, atol=1e-3, what='column sums of the matrix')
    close(a.T.dot(a), A.T.dot(A), rtol=5e-3, atol=1e-3 * (n.max()**2), what='normal matrix')
    x0 = opt.getUpdateDirection(tr, tr.getDerivs())
    chis = [tr.getChiImage(i) for i in range(nim)]
    x1 = opt.getUpdateDirection(tr, tr.getDerivs(), chiImages=chis)
    close(x1, x0, rtol=1e-9, atol=1e-9, what='update with residual images passed in')
    half = opt.getUpdateDirection(tr, tr.getDerivs(), priors=False, chiImages=[.5 * c for c in chis])
    full = opt.getUpdateDirection(tr, tr.getDerivs(), priors=False)
    expect(np.all(np.abs(2 * half - full) * np.sqrt((A[:sum(i['shape'][0] * i['shape'][1] for i in ims)]**2).sum(0)) < 1e-2),
           'the update is not linear in the residuals')
    close(opt.getLinearUpdateDirection(tr), x0, rtol=1e-9, atol=1e-9, what='linear update direction')
    v = tr.optimize(variance=True, just_variance=True)
    close(v, 1. / n**2, rtol=5e-3, atol=0, what='just_variance')
    p0 = np.array(tr.getParams())
    r = tr.optimize(variance=True)
    same(len(r), 4, 'result with variance')
    close(r[3], 1. / n**2, rtol=5e-3, atol=0, what='variance from optimize')
    close(tr.getParams(), p0 + r[2] * np.array(r[1]), rtol=1e-7, atol=1e-9, what='parameters after the step')
    # covariance and matrix of the dense optimiser
    from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
    tr = build(kinds, nim, 1, frozen, PRIORS[pi], None, 0., False, order, False, masks=True)[0]
    X, ic, cm = SmarterDenseOptimizer().getUpdateDirection(tr, tr.getDerivs(), get_cov=True, shared_params=False)
    same(list(cm), [i for i in range(len(cols)) if n[i] > 0], 'live parameters')
    nn = n[cm]
    close(ic / np.outer(nn, nn), A.T.dot(A)[cm][:, cm] / np.outer(nn, nn), rtol=5e-3, atol=2e-3, what='inverse covariance')
    xr = solve(A, b)[0]
    expect(np.all(np.abs(np.array(X) - xr[cm]) * nn < 3e-3 * max(1., np.linalg.norm(xr * n))), 'update with covariance: %s', X)
    hg = SmarterDenseOptimizer().getPriorsHessianAndGradient(tr)
    Apri, bpri = A[sum(i['shape'][0] * i['shape'][1] for i in ims):], b[sum(i['shape'][0] * i['shape'][1] for i in ims):]
    if len(Apri):
        close(hg[0], Apri.T.dot(Apri), rtol=1e-4, atol=1e-4, what='Hessian of the priors')
        close(hg[1], Apri.T.dot(bpri), rtol=1e-4, atol=1e-4, what='gradient of the priors')
    aA, aB, aX, cs, lay = SmarterDenseOptimizer().getUpdateDirection(tr, tr.getDerivs(), get_A=True, shared_params=False)
    nn = n[n > 0]
    close(cs, nn, rtol=3e-3, atol=1e-3 * n.max(), what='column scales of the dense optimiser')
    npix = 0
    for j, im in enumerate(tr.images):
        r0, (x0_, x1_, y0_, y1_) = lay[im]
        H, W = im.shape
        same((x0_, x1_, y0_, y1_), (0, W, 0, H), 'region of image %d' % j)
        rows = slice(sum(i['shape'][0] * i['shape'][1] for i in ims[:j]), sum(i['shape'][0] * i['shape'][1] for i in ims[:j + 1]))
        got = aA[r0:r0 + H * W] * cs
        close(got / nn, A[rows][:, n > 0] / nn, rtol=5e-3, atol=2e-3, what='rows of image %d' % j)
        close(aB[r0:r0 + H * W], b[rows], rtol=1e-3, atol=1e-3 * np.abs(b).max(), what='residuals of image %d' % j)
    ck.step(10)
    ck.outcome(tuple(np.round(x0, 3)))


def check_stamp(ck, name, cls, size, shape, pos, frozen, masked):
    """pixelised PSFs whose stamp may be as large as the image, anywhere on and across it"""
    import tractor as T
    from mc.zoo import psf_stamp
    from tractor.patch import ModelMask
    src = T.PointSource(T.PixPos(*pos), T.Flux(50.))
    psf = T.PixelizedPSF(psf_stamp(size).astype(np.float32))
    im = T.Image(data=texture(shape, 3).astype(np.float32), inverr=(1. + .3 * np.abs(texture(shape, 4))).astype(np.float32), psf=psf, wcs=T.NullWCS(),
                 photocal=T.NullPhotoCal(), sky=T.ConstantSky(.3))
    tr = T.Tractor([im], [src])
    tr.freezeParam('images')
    if masked:
        tr.setModelMasks([{src: ModelMask(0, 0, shape[1], shape[0])}])
    for n, f in zip(('pos', 'brightness'), frozen):
        if f:
            src.freezeParam(n)
    cols = []
    for d in tr.getDerivs():
        c = np.zeros(shape)
        for q, _ in d:
            q.addTo(c)
        cols.append((c * im.getInvError()).ravel())
    if not cols:
        return
    A = np.array(cols).T
    b = ((im.getImage() - tr.getModelImage(0)) * im.getInvError()).ravel()
    x = cls().getUpdateDirection(tr, tr.getDerivs(), shared_params=False)
    if not np.any(A):
        expect(x is None or len(x) == 0 or not np.any(x), 'update %r with nothing to fit', x)
        return
    xr, n = solve(A, b)
    bad = np.abs(x - xr) * n
    expect(np.all(bad <= 3e-3 * max(1., np.linalg.norm(xr * n))), 'update %s, expected %s (sigmas off %s)', np.array(x), xr, bad)
    ck.step()


MASKS = [(50, 50, 5, 5), (-9, -9, 6, 6), (-3, -2, 7, 8), (2, 3, 6, 4), (0, 0, 12, 11), (6, 5, 30, 30)]


def check_masked(ck, name, cls, kind, m1, m2, frozen):
    """A single source behind any pair of masks (inside, straddling, outside the image)."""
    from tractor.patch import ModelMask
    order = (0, 1)
    tr, S, ims, data, prows = build((kind,), 2, 1, frozen, (), None, 0., False, order, False)
    src = tr.catalog[0]
    tr.setModelMasks([{src: ModelMask(*m1)}, {src: ModelMask(*m2)}])
    cols = columns(tr, S, ims, frozen, False, order)
    if not cols:
        return
    A = np.array([np.hstack([(c * scene.inverr(im)).ravel() for c, im in zip(col, ims)]) for _, col in cols]).T
    b = []
    for im, d, m in zip(ims, data, (m1, m2)):
        H, W = im['shape']
        mod = scene.ref_image(S, im)
        Y, X = np.mgrid[:H, :W]
        inside = (X >= m[0]) & (X < m[0] + m[2]) & (Y >= m[1]) & (Y < m[1] + m[3])
        mod = np.where(inside, mod, im['sky'])
        b.append(((d - mod) * scene.inverr(im)).ravel())
    b = np.hstack(b)
    p = list(tr.getParams())
    x = cls().getUpdateDirection(tr, tr.getDerivs(), shared_params=False)
    close(tr.getParams(), p, rtol=0, atol=0, what='parameters after computing the update')
    if not np.any(A):
        expect(x is None or len(x) == 0 or not np.any(x), 'update %r with nothing to fit', x)
        return
    xr, n = solve(A, b)
    same(len(x), len(cols), 'length of the update')
    tol = 1e-2 * max(1., np.linalg.norm(xr * n))
    bad = np.abs(x - xr) * n
    expect(np.all(bad <= tol), 'update %s, expected %s (sigmas off %s)', np.array(x), xr, bad)
    ck.step()
    ck.outcome(tuple(np.round(x, 2)))


def check_bands(ck, name, cls, bands, fl, pos):
    """
    Images in several bands, fluxes frozen band by band: the first parameter need not touch the first image.  The
    residual images may be handed in (chiImages) or not.
    fl: per source, the set of thawed flux bands.
    """
    import tractor as T
    from tractor.basics import NullWCS
    from tractor.patch import ModelMask
    imgs = []
    for i, b in enumerate(bands):
        H, W = [(9, 11), (10, 8), (8, 12)][i]
        imgs.append(T.Image(data=2. * texture((H, W), 50 + i) + i, inverr=.5 + .5 * np.abs(texture((H, W), 60 + i)),
                            psf=T.GaussianMixturePSF(*[a.copy() for a in scene.PSF1]), wcs=NullWCS(dx=.25 * i),
                            photocal=T.LinearPhotoCal(1. + i, band=b), sky=T.ConstantSky(.5 * i)))
    srcs = []
    for k, on in enumerate(fl):
        s = T.PointSource(T.PixPos(4.3 + 2. * k, 5.2 - k), T.NanoMaggies(order=['g', 'r'], g=20. + 10. * k, r=35. - 5. * k))
        for b in 'gr':
            if b not in on:
                s.brightness.freezeParam(b)
        if not pos:
            s.freezeParam('pos')
        srcs.append(s)
    tr = T.Tractor(imgs, srcs)
    tr.freezeParam('images')
    if name == 'smarter':
        tr.setModelMasks([dict((s, ModelMask(0, 0, im.shape[1], im.shape[0])) for s in srcs) for im in imgs])
    D = tr.getDerivs()
    # which image each flux derivative belongs to is known independently
    names = tr.getParamNames()
    for nm, d in zip(names, D):
        b = nm.split('.')[-1]
        if b in 'gr':
            same([imgs.index(im) for p, im in d], [i for i, c in enumerate(bands) if c == b], 'images with a derivative of ' + nm)
    off = np.cumsum([0] + [im.shape[0] * im.shape[1] for im in imgs])
    A = np.zeros((off[-1], len(D)))
    for j, d in enumerate(D):
        for p, im in d:
            i = imgs.index(im)
            H, W = im.shape
            A[off[i]:off[i + 1], j] += (dense(p, (0, W, 0, H)) * im.getInvError()).ravel()
    chis = [(im.getImage() - tr.getModelImage(i)) * im.getInvError() for i, im in enumerate(imgs)]
    p0 = list(tr.getParams())
    for label, use in (('', None), (' (residual images passed in)', chis), (' (other residual images)', [.5 * c + .1 for c in chis])):
        kw = {} if use is None else dict(chiImages=[c.copy() for c in use])
        x = cls().getUpdateDirection(tr, tr.getDerivs(), shared_params=False, **kw)
        close(tr.getParams(), p0, rtol=0, atol=0, what='parameters after computing the update')
        if not np.any(A):
            expect(x is None or len(x) == 0 or not np.any(x), 'update %r with nothing to fit', x)
            continue
        b = np.hstack([c.ravel() for c in (chis if use is None else use)])
        xr, n = solve(A, b)
        same(len(x), len(D), 'length of the update')
        tol = 5e-3 * max(1., np.linalg.norm(xr * n))
        bad = np.abs(x - xr) * n
        expect(np.all(bad <= tol), 'update%s %s, expected %s (sigmas off %s)', label, np.array(x), xr, bad)
        ck.step()
        ck.outcome(tuple(np.round(x, 2)))


def run(ck):
    def shD(sub, item):
        name, cls = item
        sub.section('D bands', 'all image lists of up to 3 over two bands x all sets of thawed fluxes of two sources x positions')
        sets = ['', 'g', 'r', 'gr']
        for n in (1, 2, 3):
            for bands in itertools.product('gr', repeat=n):
                for fl in [(a,) for a in sets] + ([(a, b) for a in sets for b in sets] if name != 'smarter' else []):
                    for pos in (0, 1):
                        sub.case(('bands', name, ''.join(bands), fl, pos), check_bands, sub, name, cls, bands, fl, pos)
    ck.shards(optimizers(), shD)
    FRO = list(itertools.product([0, 1], repeat=3))
    K = [('point',), ('gauss',), ('exp',), ('point', 'point'), ('point', 'gauss')]
    if ck.thorough:
        K += [('comp',), ('fixcomp',), ('expsoft',), ('devcore',), ('gauss', 'point', 'point'), ('dev', 'point')]
    items = [(n, c, k, nim) for n, c in optimizers() for k in K for nim in (1, 2, 3)]
    ck.section('A update', 'optimisers x source lists x image counts x freeze patterns x masked patterns x priors x options')

    def sh(sub, item):
        name, cls, kinds, nim = item
        for frozen in FRO:
            for zi in range(len(ZEROS)):
                for pi in range(len(PRIORS)):
                    for sky in (False, True):
                        for far in (False, True):
                            kws = [{}, dict(scale_columns=False), dict(priors=False)]
                            if name in ('lsqr', 'constrained'):
                                kws += [dict(damp=2.), dict(variance=True)]
                            for ki, kw in enumerate(kws):
                                if (far and len(kinds) == 1 and kinds[0] != 'point') or (ki and (far or zi == 2) and not sub.thorough):
                                    continue
                                if kw.get('scale_columns') is False and not (frozen[0] and frozen[2]):
                                    continue     # unscaled mixed-unit systems are ill-conditioned by construction
                                for order in ([tuple(range(nim)), tuple(range(nim))[::-1]] if nim > 1 and ki == 0 and zi == 1 else [tuple(range(nim))]):
                                    sub.case(('update', name, kinds, nim, frozen, zi, pi, sky, far, ki, order), check, sub, name, cls, kinds, nim, zi,
                                             frozen, pi, None, far, sky, kw, order, name == 'smarter')
        if name in ('lsqr', 'constrained') and len(kinds) > 1:
            for frozen in FRO:
                for shared in ('flux', 'pos'):
                    for zi in (0, 1):
                        for sky in (False, True):
                            for ki, kw in enumerate([{}, dict(priors=False), dict(damp=2.), dict(scale_columns=False)]):
                                if ki == 3 and not (frozen[0] and frozen[2]):
                                    continue
                                if ki == 2:
                                    continue
                                sub.case(('shared', name, kinds, nim, frozen, shared, zi, sky, ki), check, sub, name, cls, kinds, nim, zi,
                                         frozen, 0, shared, False, sky, kw, tuple(range(nim)), False)
    ck.shards(items, sh)
    ck.section('F memory layouts', 'image arrays in %s order x scenes' % ', '.join(scene.LAYOUTS))

    def shl(sub, item):
        name, cls, kinds, nim = item
        for how in scene.LAYOUTS:
            for zi in (0, 1):
                for sky in (False, True):
                    sub.case(('layout', how, name, kinds, nim, zi, sky), scene.laid, how, check, sub, name, cls, kinds, nim, zi, FRO[0], 0, None, False, sky, {},
                             tuple(range(nim)), name == 'smarter')
    ck.shards(items, shl)
    ck.section('B extras', 'column scales, matrix, supplied residuals, variances')
    for kinds in K:
        for nim in (1, 2, 3):
            for frozen in FRO:
                for pi in range(len(PRIORS)):
                    ck.case(('extras', kinds, nim, frozen, pi), check_extras, ck, kinds, nim, frozen, pi)
    ck.section('C masks', 'all pairs of model masks inside, straddling and outside the images')

    def shM(sub, item):
        name, cls, kind = item
        for m1, m2 in itertools.product(MASKS, repeat=2):
            for frozen in FRO:
                sub.case(('masked', name, kind, m1, m2, frozen), check_masked, sub, name, cls, kind, m1, m2, frozen)
    ck.shards([(n, c, k) for n, c in optimizers() for k in ('point', 'gauss', 'exp')], shM)
    ck.section('E stamps', 'pixelised PSFs of 3 sizes x image shapes (equal to the stamp or not) x positions on, across and off the edges x frozen groups')
    for name, cls in optimizers():
        for size, shape in itertools.product((9, 11, 13), ((11, 11), (9, 13), (13, 13))):
            for pos in itertools.product((5., 6.3, 1.2, -2., 12.6), (5., 6.3, 8.8, -1.5)):
                for frozen in ((0, 0), (1, 0), (0, 1)):
                    ck.case(('stamp', name, size, shape, pos, frozen), check_stamp, ck, name, cls, size, shape, pos, frozen, name == 'smarter')
    ck.assumptions.append('updates are compared in units of each parameter\'s own standard error, to 0.3% of the update (float32 and iterative solvers)')
