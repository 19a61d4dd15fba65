"""
P28: fitting Gaussian mixtures.  Every step of the expectation-maximisation
fits (pixel stamps with and without a background, samples in one dimension,
and the Python version) against a plain float64 reference step, over all small
stamps and sample sets, starting points, regularisations and array layouts;
the likelihood along whole runs; fits of stamps that are mixtures.
"""
import itertools
import contextlib
import io
import warnings
import numpy as np
from mc.core import expect, fail, close, same, texture


def norm2(x, y, m, v):
    v = np.asarray(v, float)
    det = v[0, 0] * v[1, 1] - v[0, 1] * v[1, 0]
    dx, dy = x - m[0], y - m[1]
    q = (v[1, 1] * dx * dx - (v[0, 1] + v[1, 0]) * dx * dy + v[0, 0] * dy * dy) / det
    return q, 1. / (2. * np.pi * np.sqrt(det))


def ref2d(img, x0, y0, w, mu, var, alpha):
    H, W = img.shape
    x, y = np.meshgrid(np.arange(W) + float(x0), np.arange(H) + float(y0))
    K = len(w)
    z = np.zeros((K, H, W))
    for k in range(K):
        q, s = norm2(x, y, mu[k], var[k])
        z[k] = np.where(q < 100., w[k] * s * np.exp(-.5 * q), 0.)
    t = z.sum(axis=0)
    z = np.where(t > 0, z / np.where(t > 0, t, 1.), 0.) * img
    w2 = z.sum(axis=(1, 2))
    m2, v2 = np.zeros((K, 2)), np.zeros((K, 2, 2))
    for k in range(K):
        m2[k] = (z[k] * x).sum() / w2[k], (z[k] * y).sum() / w2[k]
        dx, dy = x - m2[k, 0], y - m2[k, 1]
        v2[k] = np.array([[(z[k] * dx * dx).sum() + alpha, (z[k] * dx * dy).sum()],
                          [(z[k] * dx * dy).sum(), (z[k] * dy * dy).sum() + alpha]]) / (w2[k] + alpha)
    return w2, m2, v2


def like2d(img, x0, y0, w, mu, var):
    H, W = img.shape
    x, y = np.meshgrid(np.arange(W) + float(x0), np.arange(H) + float(y0))
    p = 0.
    for k in range(len(w)):
        q, s = norm2(x, y, mu[k], var[k])
        p = p + w[k] * s * np.exp(-.5 * q)
    return np.sum(img * np.log(np.maximum(p / np.sum(w), 1e-300)))


def starts(K, which):
    w = np.array([[1.], [.5, .5], [.5, .3, .2]][K - 1])
    if which == 0:
        mu = np.zeros((K, 2))
        var = np.array([np.eye(2) * (i + 1.) for i in range(K)])
    elif which == 1:
        mu = np.array([[.3, -.4], [-1.2, .8], [1., 1.5]])[:K]
        var = np.array([[[1.5, .4], [.4, 1.1]], [[3., -.6], [-.6, 2.]], [[.8, 0.], [0., 5.]]])[:K]
    else:
        w = 3. * w
        mu = np.array([[.5, .5], [-.5, .2], [0., -1.]])[:K]
        var = np.array([[[2.5, -.9], [-.9, 1.6]], [[1., .2], [.2, 1.]], [[6., 1.], [1., 4.]]])[:K]
    return w.copy(), mu.copy(), var.copy()


def layout(a, how):
    """The same values as another kind of array."""
    if how == 'plain':
        return a.copy()
    if how == 'float32':
        return a.astype(np.float32)
    if how == 'strided':
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for n in a.shape)]
        v[...] = a
        return v
    return np.asfortranarray(a)


STAMPS = {}


def stamp(key):
    kind, shape, seed = key
    H, W = shape
    y, x = np.mgrid[:H, :W]
    if kind == 'bits':
        b = np.array([(seed >> i) & 1 for i in range(H * W)], float).reshape(shape)
        return b * (1. + .1 * (x + 3. * y))
    if kind == 'noise':
        return np.abs(texture(shape, seed))
    if kind == 'signed':
        return texture(shape, seed) + .5 * np.exp(-.5 * ((x - W // 2)**2 + (y - H // 2)**2) / 2.) * 4.
    if kind == 'mog':
        s = 0.
        for a, mx, my, v in ((.6, .2, -.3, 1.3), (.4, -.4, .5, 3.1)):
            s = s + a * np.exp(-.5 * ((x - W // 2 - mx)**2 + (y - H // 2 - my)**2) / v) / (2 * np.pi * v)
        return s


def case_step(key, K, which, alpha, steps, how, xy):
    from tractor.emfit import em_fit_2d_reg
    st = stamp(key)
    st = st / st.sum()
    w, mu, var = starts(K, which)
    if xy is None:
        xy = -(st.shape[1] // 2), -(st.shape[0] // 2)
    else:
        mu = mu + np.array(xy) + np.array([st.shape[1] // 2, st.shape[0] // 2])
    rw, rm, rv = w, mu, var
    for i in range(steps):
        rw, rm, rv = ref2d(st, xy[0], xy[1], rw, rm, rv, alpha)
        if not (np.all(np.isfinite(rm)) and min(np.linalg.det(v) for v in rv) > 1e-9):
            return 'degenerate'
    gw, gm, gv = layout(w, how), layout(mu, how), layout(var, how)
    gi = layout(st, how)
    gi0 = gi.copy()
    r = em_fit_2d_reg(gi, xy[0], xy[1], gw, gm, gv, alpha, steps)
    same(r, 0, 'result')
    same(gi.tolist(), gi0.tolist(), 'the stamp')
    t = 2e-5 if how == 'float32' else 1e-8
    close(gw, rw, t, t, 'weights')
    close(gm, rm, t, t * 10, 'means')
    close(gv, rv, t * 10, t * 10, 'variances')
    if alpha == 0:
        close(gw.sum(), 1., 0, 1e-4 if which == 0 else 2e-3, 'total weight')
    return 'ok'


def case_mono(key, K, which):
    """Along a run the likelihood does not decrease."""
    from tractor.emfit import em_fit_2d_reg
    st = stamp(key)
    st = st / st.sum()
    w, mu, var = starts(K, which)
    x0, y0 = -(st.shape[1] // 2), -(st.shape[0] // 2)
    last = None
    n, r = 0, (w, mu, var)
    while n < 25:
        r = ref2d(st, x0, y0, r[0], r[1], r[2], 0.)
        if not (np.all(np.isfinite(r[1])) and min(np.linalg.det(v) for v in r[2]) > 1e-3 and r[0].min() > 1e-6):
            break
        n += 1
    for i in range(n):
        same(em_fit_2d_reg(st, x0, y0, w, mu, var, 0., 1), 0, 'result')
        l = like2d(st, x0, y0, w, mu, var)
        if last is not None:
            expect(l >= last - 1e-9 * abs(last), 'likelihood fell from %.9g to %.9g in step %d' % (last, l, i))
        last = l
        expect(min(np.linalg.det(v) for v in var) > 0, 'variance')
    # many steps at once are the same many steps
    a, b, c = starts(K, which)
    same(em_fit_2d_reg(st, x0, y0, a, b, c, 0., n), 0, 'result')
    for g, r, n in ((a, w, 'weights'), (b, mu, 'means'), (c, var, 'variances')):
        close(g, r, 1e-7, 1e-7, n)


def refsky(img, x0, y0, w, mu, var, alpha, steps, approx):
    """The model with a background: a pixel's flux is shared between the components and the sky."""
    H, W = img.shape
    x, y = np.meshgrid(np.arange(W) + float(x0), np.arange(H) + float(y0))
    K = len(w)
    psky = .01 * img.sum() / img.size
    for it in range(steps):
        z = np.zeros((K, H, W))
        for k in range(K):
            v = np.array(var[k])
            q, s = norm2(x, y, mu[k], v)
            z[k] = np.where(s * np.exp(-.5 * q) > approx, w[k] * s * np.exp(-.5 * q), 0.)
        t = z.sum(axis=0)
        pos = np.maximum(img, 0.)
        inside = t > 0
        share = np.where(inside, pos / np.where(inside, t + psky, 1.), 0.)
        sky = np.abs(np.minimum(img, 0.)).sum() + np.where(inside, share * psky, pos).sum()
        z = z * share
        w2 = z.sum(axis=(1, 2))
        m2, v2 = np.zeros((K, 2)), np.zeros((K, 2, 2))
        for k in range(K):
            m2[k] = (z[k] * x).sum() / w2[k], (z[k] * y).sum() / w2[k]
            dx, dy = x - mu[k][0], y - mu[k][1]         # about the previous mean
            v2[k] = np.array([[(z[k] * dx * dx).sum() + alpha, (z[k] * dx * dy).sum()],
                              [(z[k] * dx * dy).sum(), (z[k] * dy * dy).sum() + alpha]]) / (w2[k] + alpha)
        # second moments about the new mean, for comparison at convergence
        w, mu, var = w2, m2, v2
        psky = sky / img.size
    return w, mu, var, psky


def case_sky(key, K, which, alpha, approx, how, conv):
    """conv: the run is long enough to have converged; otherwise weights, means and sky after one step."""
    from tractor.emfit import em_fit_2d_reg2
    st = stamp(key)
    w, mu, var = starts(K, which)
    w = w * st.sum()
    x0, y0 = -(st.shape[1] // 2), -(st.shape[0] // 2)
    gw, gm, gv, gi = layout(w, how), layout(mu, how), layout(var, how), layout(st, how)
    t = 1e-4 if how == 'float32' else 1e-7
    if not conv:
        rw, rm, rv, rs = refsky(st, x0, y0, w, mu, var, alpha, 1, approx)
        if not np.all(np.isfinite(rm)):
            return
        r, sky = em_fit_2d_reg2(gi, x0, y0, gw, gm, gv, alpha, 1, approx)
        same(r, 0, 'result')
        close(gw, rw, t, t, 'weights')
        close(gm, rm, t, t * 10, 'means')
        close(sky, rs, t, t, 'sky')
        return
    rw, rm, rv, rs = refsky(st, x0, y0, w, mu, var, alpha, 400, approx)
    if not np.all(np.isfinite(rm)) or min(np.linalg.det(v) for v in rv) < 1e-3:
        return
    r, sky = em_fit_2d_reg2(gi, x0, y0, gw, gm, gv, alpha, 400, approx)
    same(r, 0, 'result')
    t = max(t, 1e-5) * 10
    close(gw, rw, t, t, 'weights')
    close(gm, rm, t, t * 10, 'means')
    close(gv, rv, t, t * 10, 'variances')
    close(sky, rs, t, t, 'sky')


def ref1d(X, w, m, v, alpha):
    X = np.asarray(X, float)
    q = (X[None, :] - m[:, None])**2 / v[:, None]
    z = np.where(q < 100., w[:, None] / np.sqrt(2 * np.pi * v[:, None]) * np.exp(-.5 * q), 0.)
    t = z.sum(axis=0)
    z = np.where(t > 0, z / np.where(t > 0, t, 1.), 0.)
    s = z.sum(axis=1)
    m2 = (z * X).sum(axis=1) / s
    v2 = ((z * (X[None, :] - m2[:, None])**2).sum(axis=1) + alpha) / (s + alpha)
    return s / len(X), m2, v2


def case_1d(X, K, alpha, steps, how):
    from tractor.emfit import em_fit_1d_samples_reg
    w = np.array([1., .5, .3])[:K]
    w = w / w.sum()
    m = np.array([0., 1., -1.5])[:K]
    v = np.array([1., 3., .7])[:K]
    r = w, m, v
    for i in range(steps):
        r = ref1d(X, r[0], r[1], r[2], alpha)
        if not np.all(np.isfinite(r[1])) or r[2].min() < 1e-6 or r[0].min() < 1e-12:
            return
    g = [layout(a, how) for a in (w, m, v)]
    same(em_fit_1d_samples_reg(layout(np.array(X, float), how), g[0], g[1], g[2], alpha, steps), 0, 'result')
    t = 3e-5 if how == 'float32' else 1e-8
    for a, b, n in zip(g, r, ('weights', 'means', 'variances')):
        close(a, b, t, t * 10, n)


def case_1d_long(X, K):
    from tractor.emfit import em_fit_1d_samples
    w, m, v = np.ones(K) / K, np.array([0., 1., -1.5])[:K].copy(), np.array([1., 3., .7])[:K].copy()
    r = w, m, v
    for i in range(1000):
        r = ref1d(X, r[0], r[1], r[2], 0.)
    g = [a.copy() for a in (w, m, v)]
    same(em_fit_1d_samples(np.array(X, float), *g), 0, 'result')
    for a, b, n in zip(g, r, ('weights', 'means', 'variances')):
        close(a, b, 1e-6, 1e-6, n)


def case_python(key, K, which, xy):
    """The Python version: one update, and the whole fit from the same start as the compiled one."""
    from tractor import fitpsf
    from tractor.emfit import em_fit_2d_reg
    st = stamp(key)
    st = st / st.sum()
    w, mu, var = starts(K, which)
    x0, y0 = xy
    mu = mu + np.array(xy) + np.array([st.shape[1] // 2, st.shape[0] // 2])
    H, W = st.shape
    x, y = np.meshgrid(np.arange(W) + x0, np.arange(H) + y0)
    grid = np.array([x.ravel(), y.ravel()]).T.astype(float)
    for k in range(K):
        q, s = norm2(x, y, mu[k], var[k])
        close(fitpsf.gauss2d(grid, mu[k], var[k]).reshape(st.shape), s * np.exp(-.5 * q), 1e-10, 1e-300, 'gauss2d')
    want = sum(w[k] * norm2(x, y, mu[k], var[k])[1] * np.exp(-.5 * norm2(x, y, mu[k], var[k])[0]) for k in range(K))
    close(fitpsf.render_image(x, y, w, mu, var), want, 1e-10, 1e-300, 'render_image')
    rw, rm, rv = ref2d(st, x0, y0, w / w.sum(), mu, var, 0.)
    a, b, c = fitpsf.em_update(K, st.size, st.ravel(), grid, (w / w.sum()).copy(), mu.copy(), var.copy())
    close(a, rw, 1e-4, 1e-5, 'weights')
    close(b, rm, 1e-3, 1e-4, 'means')
    close(c, rv, 1e-2, 1e-3, 'variances')
    v = fitpsf.makevector(w, mu, var)
    for g, r in zip(fitpsf.unpackvector(v, K), (w, mu, var)):
        same(g.tolist(), r.tolist(), 'packed parameters')
    if key[0] != 'mog':
        return
    img = 5. * st
    before = img.copy(), w.copy(), mu.copy(), var.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        a, b, c = fitpsf.emfit(img, x0, y0, K=K, w=w, mu=mu, sig=var, printlog=False)
    for g, r, n in zip((img, w, mu, var), before, ('image', 'weights', 'means', 'variances')):
        same(g.tolist(), r.tolist(), 'the caller\'s ' + n)
    g = [z.copy() for z in (before[1] / before[1].sum(), before[2], before[3])]
    em_fit_2d_reg(st, x0, y0, g[0], g[1], g[2], 0., 999)
    for p, r, n in zip((a, b, c), g, ('weights', 'means', 'variances')):
        close(p, r, 1e-3, 1e-3, n)


TRUTH = [
    ([1.], [[0., 0.]], [[[2., .3], [.3, 1.5]]]),
    ([1.], [[.7, -1.2]], [[[3., -.8], [-.8, 2.]]]),
    ([.7, .3], [[0., 0.], [.3, -.2]], [[[2., 0.], [0., 2.]], [[7., 0.], [0., 7.]]]),
    ([.6, .4], [[.2, .1], [-.4, .3]], [[[1.5, .2], [.2, 1.8]], [[6., -1.], [-1., 5.]]]),
    ([.5, .5], [[-1., 0.], [1.5, .5]], [[[1.5, 0.], [0., 1.5]], [[5., 1.], [1., 6.]]]),
]


def mogstamp(t, shape, scale):
    H, W = shape
    x, y = np.meshgrid(np.arange(W) - W // 2, np.arange(H) - H // 2)
    s = 0.
    for a, m, v in zip(*t):
        q, n = norm2(x, y, m, np.array(v))
        s = s + a * n * np.exp(-.5 * q)
    return scale * s


def params(psf):
    m = psf.mog
    o = np.argsort(m.var[:, 0, 0] * m.var[:, 1, 1])
    return m.amp[o], m.mean[o], m.var[o]


def case_from(ti, shape, scale, method, start, dt):
    """A stamp that is a mixture is fitted by that mixture, and nobody's arrays are touched."""
    from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF
    t = TRUTH[ti]
    K = len(t[0])
    st = mogstamp(t, shape, scale).astype(dt)
    st0 = st.copy()
    P0 = None
    if start == 'near':
        P0 = (np.array(t[0]) * .9 + .05, np.array(t[1]) * .5, np.array(t[2]) * 1.3)
    elif start == 'list':
        v = np.array(t[2]) * 1.3
        P0 = list(np.array(t[0])) + list(np.ravel(np.array(t[1]) * .5)) + list(np.ravel([[a[0, 0], a[1, 1], a[0, 1]] for a in v]))
    keep = [np.array(a) for a in P0] if P0 is not None else None
    sky = 0.
    with contextlib.redirect_stdout(io.StringIO()):
        if method == 'ellipse':
            kw = {}
            if start == 'near':
                return
            if start == 'list':
                from tractor.ellipses import EllipseESoft
                p = GaussianMixtureEllipsePSF(np.array(t[0]), np.array(t[1]) * .5, [EllipseESoft(np.log(1.2 * np.sqrt(np.sqrt(np.linalg.det(v)))), 0., 0.) for v in t[2]])
                kw = dict(P0=list(p.getAllParams()))
            psf = GaussianMixtureEllipsePSF.fromStamp(st, N=K, **kw)
        else:
            kw = dict(N=K)
            if P0 is not None:
                kw.update(P0=P0)
            if method == 'xy0':
                kw.update(xy0=(-(shape[1] // 2) + 3, -(shape[0] // 2) - 2))
                if P0 is not None:
                    return
            if method in ('v2', 'v3'):
                kw[method] = True
            psf = GaussianMixturePSF.fromStamp(st, **kw)
            if method == 'v2':
                psf, sky = psf
    same(st.tolist(), st0.tolist(), 'the stamp')
    if keep is not None:
        for a, b in zip(P0, keep):
            same(np.array(a).tolist(), b.tolist(), 'the starting parameters')
    o = np.argsort([np.linalg.det(v) for v in t[2]])
    w, m, v = params(psf)
    want = np.array(t[1])[o] + (np.array([3., -2.]) if method == 'xy0' else 0.)
    sc = scale if method in ('v2', 'v3', 'ellipse') else 1.
    lo = 6e-3 if ti < 2 else .05
    close(w / sc, np.array(t[0])[o], 0, lo, 'weights')
    close(m, want, 0, 3 * lo, 'means')
    close(v, np.array(t[2])[o], lo, 3 * lo, 'variances')
    expect(abs(sky) < 1e-3 * scale, 'sky %g' % sky)


def case_hybrid(ti, N):
    """The Gaussian stand-in of a hybrid PSF is the fit of its stamp."""
    from tractor.psf import HybridPixelizedPSF, PixelizedPSF, GaussianMixturePSF
    st = mogstamp(TRUTH[ti], (23, 23), 1.).astype(np.float32)
    h = HybridPixelizedPSF(PixelizedPSF(st.copy()), N=N)
    g = GaussianMixturePSF.fromStamp(st.copy(), N=N)
    for a, b, n in zip(params(h.gauss), params(g), ('weights', 'means', 'variances')):
        close(a, b, 1e-5, 1e-5, n)
    same(np.asarray(h.pix.img).tolist(), st.tolist(), 'the stamp')
    m = h.getMixtureOfGaussians(px=3., py=4.)
    close(m.amp.sum(), 1., 0, 1e-3, 'total')


def run(ck):
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    big = ck.thorough
    CASES = dict(step=case_step, mono=case_mono, sky=case_sky, one=case_1d, long=case_1d_long, python=case_python, fit=case_from, hybrid=case_hybrid)

    def doit(sub, it):
        kind, a = it
        sub.step(a[4] if kind == 'step' else 25 if kind == 'mono' else 1)
        sub.case('%s %s' % (kind, ' '.join(str(x).replace("'", '') for x in a)), CASES[kind], *a)

    def go(items):
        n = max(1, min(200, len(items) // 32))
        ck.shards([items[i:i + n] for i in range(0, len(items), n)], lambda sub, its: [doit(sub, it) for it in its])

    it = [('step', (('bits', (3, 3), b), K, s, al, n, 'plain', None)) for b in range(1, 512) for K in (1, 2) for s in (0, 1) for al, n in ((0., 1), (.2, 2))]
    if big:
        it += [('step', (('bits', (3, 4), b), K, s, al, n, 'plain', None)) for b in range(1, 4096) for K in (2, 3) for s in (1, 2) for al, n in ((0., 1), (.2, 2))]
    sh = [(5, 7), (8, 6), (11, 11)]
    it += [('step', ((k, s, 3), K, w, al, n, h, xy)) for k in ('noise', 'mog') for s in sh for K in (1, 2, 3) for w in (0, 1, 2) for al in (0., .05, 1.) for n in (1, 2, 7)
           for h in ('plain', 'float32', 'strided', 'fortran') for xy in (None, (4, -3))]
    ck.section('steps', 'all lit/unlit patterns of 3x3%s pixels and %d larger stamps x components x starts x regularisation x steps x array layouts' % (' and 3x4' if big else '', 2 * len(sh)))
    go(it)

    it = [('mono', ((k, s, sd), K, w)) for k in ('noise', 'mog') for s in sh for sd in (range(12) if big else range(4)) for K in (1, 2, 3) for w in (0, 1, 2)]
    ck.section('runs', '%d runs of 25 steps: likelihood never falls; split and unsplit runs agree' % len(it))
    go(it)

    it = [('sky', ((k, s, sd), K, w, al, ap, h, 0)) for k in ('noise', 'mog', 'signed') for s in sh for sd in (3, 4) for K in (1, 2, 3) for w in (0, 1, 2) for al in (0., .1) for ap in (1e-30, 1e-6, 1e-2)
          for h in ('plain', 'float32', 'strided', 'fortran')]
    it += [('sky', ((k, s, sd), K, w, al, ap, 'plain', 1)) for k in ('mog', 'signed') for s in sh for sd in (3, 4) for K in (1, 2) for w in (0, 1) for al in (0., .1) for ap in (1e-30, 1e-6)]
    ck.section('background', '%d: stamps incl. negative pixels x components x starts x regularisation x cut-offs x layouts; first step and converged' % len(it))
    go(it)

    vals = [-2., 0., .5, 3.]
    it = [('one', (X, K, al, n, 'plain')) for L in range(1, 6 if big else 5) for X in itertools.combinations_with_replacement(vals, L) for K in (1, 2, 3) for al in (0., .3) for n in (1, 3)]
    it += [('one', (tuple(texture((1, 17), sd)[0]), K, al, n, h)) for sd in range(6) for K in (1, 2, 3) for al in (0., .3, 2.) for n in (1, 2, 5) for h in ('plain', 'float32', 'strided')]
    it += [('long', (tuple(3 * texture((1, 40), sd)[0]), K)) for sd in range(8) for K in (1, 2)]
    ck.section('samples', 'all multisets of <=%d of %d values x components x regularisation x steps; longer samples' % (5 if big else 4, len(vals)))
    go(it)

    it = [('python', ((k, s, 3), K, w, xy)) for k in ('noise', 'mog') for s in sh for K in (1, 2) for w in (0, 1) for xy in ((-3, -3), (2, 5))]
    ck.section('Python version', '%d fits' % len(it))
    go(it)

    it = [('fit', (ti, s, sc, m, st, dt)) for ti in range(len(TRUTH)) for s in ((25, 25), (23, 29), (26, 24)) for sc in (1.,) + ((40.,) if big else ()) for m in ('em', 'xy0', 'v2', 'v3', 'ellipse') for st in ('default', 'near', 'list')
          for dt in ((np.float64, np.float32) if big else (np.float64,)) if not (m in ('v3', 'ellipse') and sc != 1.) and not (m == 'v3' and st == 'default')]
    it += [('hybrid', (ti, N)) for ti in range(len(TRUTH)) for N in (1, 2, 3)]
    ck.section('fits', '%d: stamps that are mixtures, five methods, three kinds of start; hybrid PSFs' % len(it))
    go(it)
    ck.assumptions.append('the direct optimisation (v3) is only claimed from starts near the answer: it is unconstrained')
    ck.assumptions.append('stamps whose reference fit degenerates (a component without light or with vanishing variance) are skipped')
    ck.assumptions.append('the fit with a background estimates the variances about the previous means: compared after the first step in weights, means and sky, and at convergence in everything')
