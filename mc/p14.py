"""
P14: forced photometry is the linear least-squares solution for the fluxes.

Every list of sources x images x frozen sources x masked pixels x sky fitting x
regions of interest x starting fluxes: fluxes (and skies) against a dense
float64 solution built from the independent reference renderer; inverse
variances, fit statistics and returned images against their definitions; only
thawed fluxes (and skies, on request) change.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, close_img, same, texture

IMS = [scene.image(shape=(13, 14), psf=scene.PSF2, sky=.5, scale=1.5, seed=1),
       scene.image(shape=(12, 11), psf=scene.PSF1, dx=-1.5, dy=.5, pixscale=.8, sky=-1., seed=2),
       scene.image(shape=(9, 13), psf=scene.PSF1, dy=-2., scale=.5, seed=3)]
ZEROS = [(), ((5, 6), (4, 3), (0, 0)), tuple((y, x) for y in range(7) for x in range(5, 9)), tuple((y, x) for y in range(13) for x in range(7))]
POS = [(5.8, 5.2), (3.4, 8.1), (9.3, 4.4)]
FLUX = [80., 40., -10.]
ROIS = [None, [(slice(1, 11), slice(2, 13)), (slice(0, 10), slice(1, 10)), (slice(2, 9), slice(0, 12))]]
STARTS = [(80., 40., 10.), (10., 500., 30.), (1., 1., 1.)]
NEG = (0., -5., 0.)


def build(kinds, nim, zi, frozen, far, sky, start, junk, opt=None):
    import tractor as T
    S = [scene.source(k, *POS[i], flux=FLUX[i]) for i, k in enumerate(kinds)]
    if far:
        S[-1] = dict(S[-1], x=500., y=-400.)
    ims = [dict(IMS[i], zero=tuple(z for z in ZEROS[zi] if z[0] < IMS[i]['shape'][0] and z[1] < IMS[i]['shape'][1]))
           for i in range(nim)]
    timgs, data = [], []
    for im in ims:
        d = scene.ref_image(S, im) + .4 * texture(im['shape'], 30 + im['seed'])
        data.append(d)
        dd = d.copy()
        for z in im['zero']:
            dd[z] = junk
        timgs.append(scene.build_image(im, data=dd))
    S0 = [dict(s, flux=start[i], flux2=.5 * start[i]) for i, s in enumerate(S)]
    objs = [scene.build_source(s) for s in S0]
    tr = T.Tractor(timgs, objs, **(dict(optimizer=opt) if opt else {}))
    for o in objs:
        o.freezeAllBut(*[n for n in o.getNamedParams() if n.startswith('brightness')])
    for i in frozen:
        if i < len(objs):
            tr.catalog.freezeParam(i)
    ims0 = ims
    if sky:
        ims0 = []
        for im, t in zip(ims, timgs):
            t.freezeAllBut('sky')
            t.sky.setParams([im['sky'] + .7])
            ims0.append(dict(im, sky=im['sky'] + .7))
    else:
        tr.freezeParam('images')
    return tr, S0, ims0, data


def reference(S0, ims0, data, frozen, sky, rois, boxes=None):
    """-> fluxes (and skies) of the least-squares solution, column matrix, chi at start."""
    def render(i, s, im):
        m = scene.ref_source(s, im)
        if boxes is not None and i < len(boxes):
            x0, y0, w, h = boxes[i]
            keep = np.zeros(m.shape)
            keep[max(0, y0):max(0, y0 + h), max(0, x0):max(0, x0 + w)] = 1.
            m = m * keep
        return m
    units = []         # (source, [unit model per image])
    for i, s in enumerate(S0):
        if i in frozen:
            continue
        if s['kind'] in scene.TWO:
            parts = [dict(s, flux=1., flux2=0.), dict(s, flux=0., flux2=1.)]
        else:
            parts = [dict(s, flux=1.)]
        for p in parts:
            units.append((i, [render(i, p, im) for im in ims0]))
    base = []
    for im in ims0:
        b = np.zeros(im['shape']) + (0. if sky else im['sky'])
        for i, s in enumerate(S0):
            if i in frozen:
                b += render(i, s, im)
        base.append(b)
    cut = [(lambda a, j=j: a[rois[j]]) if rois else (lambda a: a) for j in range(len(ims0))]
    ie = [scene.inverr(im) for im in ims0]
    cols = []
    if sky:
        for j in range(len(ims0)):
            cols.append([np.ones(im['shape']) * (k == j) for k, im in enumerate(ims0)])
    cols += [u for _, u in units]
    A = np.array([np.hstack([cut[j](c[j] * ie[j]).ravel() for j in range(len(ims0))]) for c in cols]).T
    b = np.hstack([cut[j]((data[j] - base[j]) * ie[j]).ravel() for j in range(len(ims0))])
    return units, base, cut, ie, cols, A, b


def frozen_values(tr):
    from mc.p11 import frozen_mask
    m = frozen_mask(tr)
    return m, np.array(tr.getAllParams())[m]


def check(ck, kinds, nim, zi, frozen, far, sky, start, ri, kw, slack, opt=None, boxes=None):
    X = None
    for junk in ((0., 1e4) if zi else (0.,)):
        tr, S0, ims0, data = build(kinds, nim, zi, frozen, far, sky, start, junk, opt)
        rois = ROIS[ri][:nim] if ROIS[ri] else None
        timgs = list(tr.images)
        units, base, cut, ie, cols, A, b = reference(S0, ims0, data, frozen, sky, rois, boxes)
        if boxes is not None:
            from tractor.patch import ModelMask
            tr.setModelMasks([dict((src, ModelMask(*bx)) for src, bx in zip(tr.catalog, boxes)) for t in timgs])
        fm, fv = frozen_values(tr)
        raw = [(t.getImage().copy(), t.getInvError().copy()) for t in timgs]
        p0 = np.array(tr.getParams())
        args = dict(kw)
        if rois:
            args['rois'] = rois
        if sky:
            args['sky'] = True
        R = tr.optimize_forced_photometry(**args)
        p = np.array(tr.getParams())
        expect(len(tr.images) == nim and all(a is b for a, b in zip(tr.images, timgs)), 'the images were replaced')
        for t, (d, e) in zip(timgs, raw):
            expect(np.array_equal(t.getImage(), d) and np.array_equal(t.getInvError(), e), 'image data changed')
        close(np.array(tr.getAllParams())[fm], fv, rtol=0, atol=0, what='frozen parameters')
        same(len(p), len(cols), 'number of parameters')
        if not len(cols):
            return
        n = np.sqrt((A**2).sum(0))
        live = n > 1e-6 * (n.max() if len(n) else 1.)
        if not np.any(live):
            close(p, p0, rtol=0, atol=0, what='fluxes with nothing to fit')
            return
        x = p0.copy()
        x[live] = np.linalg.lstsq(A[:, live], b - A[:, ~live].dot(p0[~live]), rcond=1e-12)[0]
        sv = np.linalg.svd(A[:, live] / n[live], compute_uv=False)
        tol = (1e-2 + 1e-3 * np.abs(x * n).max()) * slack / sv.min()
        bad = np.abs(p - x) * n
        expect(np.all(bad <= tol), 'fluxes %s, expected %s (sigmas off %s, tol %.3g)', p, x, bad, tol)
        if X is not None:
            close(p, X, rtol=1e-6, atol=1e-6, what='fluxes with other contents of masked pixels')
        X = p
        Nsky = nim if sky else 0
        if kw.get('variance'):
            iv = n**2
            if not kw.get('skyvariance'):
                iv = iv[Nsky:]
            if len(iv) or len(R.IV):
                close(R.IV, iv, rtol=5e-3 * slack, atol=1e-3 * iv.max() * slack, what='inverse variances')
        # returned images
        for which, pp in (('ims0', p0), ('ims1', p)):
            ims = getattr(R, which)
            if ims is None:
                # nothing better than the start was found
                expect(which == 'ims1' and np.array_equal(p, p0), '%s missing', which)
                continue
            same(len(ims), nim, which)
            for j, (im, mod, e, chi, roi) in enumerate(ims):
                m = base[j].copy()
                for c, v in zip(cols, pp):
                    m += c[j] * v
                sc = 2e-3 * slack * (1. + np.abs(m).max())
                close_img(mod, cut[j](m), sc, '%s model %d' % (which, j))
                same(tuple(im.shape), cut[j](data[j]).shape, 'shape of returned image')
                good = cut[j](ie[j]) > 0
                close_img(im[good], cut[j](data[j])[good], 1e-4, '%s data' % which)
                close_img(e, cut[j](ie[j]), 1e-6, '%s errors' % which)
                close_img(chi, np.where(good, (cut[j](data[j]) - cut[j](m)) * cut[j](ie[j]), 0.), sc, '%s residuals' % which)
        if kw.get('fitstats') and R.ims1 is not None:
            stats(R.fitstats, S0, units, base, cut, ie, cols, p, data, ims0, Nsky, sky, frozen, slack, kw.get('fitstat_extras', ()))
        ck.step()
    ck.state((kinds, nim, zi, frozen, far, sky, start, ri))
    ck.outcome(tuple(np.round(X, 1)))


def stats(fs, S0, units, base, cut, ie, cols, p, data, ims0, Nsky, sky, frozen, slack, extras=()):
    """Fit statistics against their definitions."""
    nim = len(ims0)
    thawed = [i for i in range(len(S0)) if i not in frozen]
    skyv = [p[j] if sky else ims0[j]['sky'] for j in range(nim)]
    mods, chis, E = [], [], []
    for j in range(nim):
        m = base[j].copy()
        for c, v in zip(cols, p):
            m += c[j] * v
        E.append(cut[j](ie[j]))
        chis.append(cut[j]((data[j] - m) * ie[j]))
        mods.append(cut[j](m) - skyv[j])
    close(fs.imchisq, [(c**2).sum() for c in chis], rtol=2e-2 * slack, atol=1e-2, what='chi-squared per image')
    same(list(fs.imnpix), [int((e > 0).sum()) for e in E], 'pixels per image')
    close(fs.sky, skyv, rtol=2e-2, atol=2e-2 * slack, what='sky per image')
    n = len(thawed)
    r = dict((k, np.zeros(n)) for k in ('prochi2', 'pronpix', 'promasked', 'proflux', 'num', 'den', 'fnum', 'fden'))
    for k, i in enumerate(thawed):
        mine = [(q, v) for (si, q), v in zip(units, p[Nsky:]) if si == i]
        flux = sum(v for _, v in mine)
        if abs(flux) < 1e-3:
            return
        for j in range(nim):
            sc = ims0[j]['scale']
            tot = flux * sc
            u = cut[j](sum(q[j] * v for q, v in mine)) / tot
            if not np.any(u * (E[j] > 0)) or np.abs(u).max() < 1e-9:
                continue
            g = E[j] > 0
            r['prochi2'][k] += (np.abs(u) * chis[j]**2)[g].sum()
            r['pronpix'][k] += np.abs(u)[g].sum()
            r['promasked'][k] += np.abs(u)[~g].sum()
            r['proflux'][k] += (np.abs((mods[j] - u * tot) / sc) * np.abs(u))[g].sum()
            r['num'][k] += (np.abs(mods[j] / tot - u) * np.abs(u))[g].sum() / (u**2)[g].sum()
            r['den'][k] += (np.abs(u)[g] / abs(tot)).sum()
            r['fnum'][k] += np.abs(u).sum()
            r['fden'][k] += 1.
            for key, eims in extras:
                r.setdefault(key, np.zeros(n))[k] += (np.abs(u) * eims[j])[g].sum()
    T = dict(rtol=3e-2 * slack, atol=1e-2 * slack)
    points = all(s['kind'] == 'point' for s in S0)
    F = dict(rtol=1e-4 * slack, atol=1e-4 * slack) if points else dict(rtol=5e-3 * slack, atol=2e-3 * slack)
    close(fs.prochi2, r['prochi2'], what='profile-weighted chi-squared', **T)
    close(fs.pronpix, r['pronpix'], what='profile-weighted unmasked fraction', **F)
    close(fs.promasked, r['promasked'], what='profile-weighted masked fraction', **F)
    close(fs.proflux, r['proflux'], what='profile-weighted flux of other sources', **T)
    close(fs.profracflux, r['num'] / np.maximum(1, r['den']), what='flux fraction of other sources', **T)
    for key, eims in extras:
        close(getattr(fs, key), r.get(key, np.zeros(n)), what='profile-weighted sum of ' + key, **T)
    close(fs.fracin, r['fnum'] / np.maximum(1, r['fden']), what='fraction of the profile inside', **T)


def check_minsb(ck, kinds, nim, start, minsb, zi):
    """models may be cut off where they are fainter than minsb, no earlier"""
    tr, S0, ims0, data = build(kinds, nim, zi, (), False, False, start, 0.)
    p0 = np.array(tr.getParams())
    units, base, cut, ie, cols, A, b = reference(S0, ims0, data, (), False, None)
    R = tr.optimize_forced_photometry(minsb=minsb)
    for j, (im, mod, e, chi, roi) in enumerate(R.ims0):
        m = base[j].copy()
        for c, v in zip(cols, p0):
            m += c[j] * v
        close_img(mod, m, 2e-3 * (1. + np.abs(m).max()) + minsb * len(kinds) * 1.001, 'model %d at the start, cut off at %g' % (j, minsb))
    ck.step()


def check_minflux(ck, kinds, nim, start, minFlux, sky, zi):
    """With a floor: no flux below it, the fit no worse than the start."""
    tr, S0, ims0, data = build(kinds, nim, zi, (), False, sky, start, 0.)
    Nsky = nim if sky else 0
    p0 = np.array(tr.getParams())
    l0 = tr.getLogProb()
    R = tr.optimize_forced_photometry(minFlux=minFlux, sky=sky)
    p = np.array(tr.getParams())
    units, base, cut, ie, cols, A, b = reference(S0, ims0, data, (), sky, None)
    moved = not np.array_equal(p, p0)
    if moved:
        expect(np.all(p[Nsky:] >= minFlux), 'flux %s below the floor %g', p[Nsky:], minFlux)
    expect(tr.getLogProb() >= l0 - 1e-6 * abs(l0), 'the fit got worse: %r -> %r', l0, tr.getLogProb())
    x = np.linalg.lstsq(A, b, rcond=1e-12)[0]
    if np.all(x[Nsky:] >= minFlux + 1e-2):
        n = np.sqrt((A**2).sum(0))
        expect(np.all(np.abs(p - x) * n < .05 + 2e-3 * np.abs(x * n).max()), 'fluxes %s, expected %s', p, x)
    # reported images describe the final state
    if R.ims1 is not None:
        for j, (im, mod, e, chi, roi) in enumerate(R.ims1):
            m = base[j].copy()
            for c, v in zip(cols, p):
                m += c[j] * v
            close_img(mod, m, 3e-3 * (1 + np.abs(m).max()), 'final model %d' % j)
    ck.step()
    ck.outcome(tuple(np.round(p, 1)))


def run(ck):
    K = [('point',), ('gauss',), ('comp',), ('devcore',), ('sercore', 'point'), ('point', 'point'), ('exp', 'point')]
    if ck.thorough:
        K += [('dev',), ('fixcomp',), ('point', 'comp'), ('point', 'gauss', 'point'), ('comp', 'point')]
    items = [(k, nim) for k in K for nim in (1, 2, 3)]
    ck.section('A fluxes', 'source lists x image counts x masked patterns x frozen sources x sky x regions x starts x options')

    def sh(sub, item):
        kinds, nim = item
        n = len(kinds)
        for frozen in [f for r in range(n + 1) for f in itertools.combinations(range(n), r)]:
            for zi in range(3):
                for far in (False, True):
                    for sky in (False, True):
                        for ri in ((0, 1) if not sky else (0,)):
                            for start in STARTS:
                                kws = [dict(variance=True, skyvariance=True), dict(fitstats=True, variance=True)]
                                if not sub.thorough and start is not STARTS[1]:
                                    kws = kws[:1]
                                if len(frozen) == n and not sky:
                                    kws = [dict()]
                                kws += [dict(shared_params=False)] if start is STARTS[1] else []
                                for ki, kw in enumerate(kws):
                                    sub.case(('fluxes', kinds, nim, zi, frozen, far, sky, start, ri, ki), check, sub, kinds, nim, zi, frozen,
                                             far, sky, start, ri, kw, 1.)
                        if not far:
                            sub.case(('fluxes0', kinds, nim, zi, frozen, sky), check, sub, kinds, nim, zi, frozen, far, sky, NEG, 0,
                                     dict(variance=True), 20.)
    ck.shards(items, sh)
    ck.section('B flux floor', 'source lists x starts x floors x sky')
    for kinds in [('point',), ('point', 'point'), ('exp', 'point'), ('point', 'gauss', 'point')]:
        for nim in (1, 2):
            for start in [(80., 40., 10.), (100., 100., 100.), (70., 75., 60.)]:
                for fl in (0., 60., -5.):
                    for sky in (False, True):
                        for zi in (0, 1):
                            if min(start[:len(kinds)]) < fl:
                                continue
                            ck.case(('floor', kinds, nim, start, fl, sky, zi), check_minflux, ck, kinds, nim, start, fl, sky, zi)
    boxl = [(0, 0, 6, 11), (1, 2, 9, 8), (4, 3, 20, 20), (0, 0, 30, 30), (-3, -2, 9, 9)]
    ck.section('C masks, extra statistics, cut-offs', 'pairs of model masks x dead regions x extra images; surface-brightness cut-offs x starts')

    def shc(sub, kinds):
        for nim in (1, 2, 3):
            ex = [('ex', [1. + np.abs(texture(IMS[j]['shape'], 70 + j)) for j in range(nim)]), ('ey', [np.ones(IMS[j]['shape']) * (j + 1.) for j in range(nim)])]
            for zi in range(len(ZEROS)):
                for start in STARTS[:2]:
                    for frozen in ((), (0,)):
                        sub.case(('extras', kinds, nim, zi, start, frozen), check, sub, kinds, nim, zi, frozen, False, False, start, 0, dict(fitstats=True, fitstat_extras=ex), 1.)
                    for bx in itertools.product(boxl, repeat=len(kinds)):
                        sub.case(('boxes', kinds, nim, zi, start, bx), check, sub, kinds, nim, zi, (), False, False, start, 0,
                                 dict(fitstats=True, variance=True, fitstat_extras=ex), 1., None, bx)
                for start in [(80., 40., 10.), (1000., 500., 300.), (3e4, 2., 50.)]:
                    for minsb in (.01, .1, 1., 5.):
                        sub.case(('minsb', kinds, nim, start, minsb, zi), check_minsb, sub, kinds, nim, start, minsb, zi)
    ck.shards([('point',), ('point', 'point'), ('point', 'gauss')], shc)
    ck.section('D memory layouts', 'image arrays in %s order x source lists x images x masks x skies x options' % ', '.join(scene.LAYOUTS))

    def shd(sub, how):
        for kinds in [('point',), ('exp', 'point'), ('comp',)]:
            for nim, zi, sky, ri in itertools.product((1, 2, 3), range(3), (False, True), (0, 1)):
                if sky and ri:
                    continue
                for ki, kw in enumerate([dict(variance=True, skyvariance=True), dict(fitstats=True, variance=True), dict(shared_params=False)]):
                    sub.case(('layout', how, kinds, nim, zi, sky, ri, ki), scene.laid, how, check, sub, kinds, nim, zi, (), False, sky, STARTS[1], ri, kw, 1.)
    ck.shards(scene.LAYOUTS, shd)
    ck.assumptions.append('fitting skies together with regions of interest is not supported by the code and not explored; '
                          'priors in forced photometry are documented as not working and not explored')
