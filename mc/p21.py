"""
P21: sky models.  Every history of scaling, offsetting, shifting, copying and
parameter edits of the sky models evaluates to the corresponding function of the
original sky; estimated splines interpolate the unmasked box medians; the
smoothness prior and its linearisation agree in every frozen state and act in
the fit exactly as extra rows of the least-squares problem.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, close_img, same, texture

SHAPE = (11, 13)


# ------------------------------------------------------------------ reference: coefficients of a tensor spline
class Ref(object):
    def __init__(self, X, Y, vals, order):
        from scipy.interpolate import RectBivariateSpline
        s = RectBivariateSpline(X, Y, np.array(vals, float).T, kx=order, ky=order)
        self.t = [np.array(s.tck[0]), np.array(s.tck[1])]
        self.k = order
        self.c = np.array(s.tck[2], float).copy()
        self.off = [0, 0]
        self.sigma = None
        self.frozen = frozenset()

    def clone(self):
        r = Ref.__new__(Ref)
        r.t, r.k, r.c, r.off, r.sigma, r.frozen = self.t, self.k, self.c.copy(), list(self.off), self.sigma, self.frozen
        return r

    def basis(self, d, x):
        from scipy.interpolate import BSpline
        t, k = self.t[d], self.k
        x = np.clip(np.asarray(x, float), t[k], t[-k - 1])
        n = len(t) - k - 1
        return np.array([BSpline(t, np.eye(n)[i], k)(x) for i in range(n)])

    def grid(self, x, y):
        bx, by = self.basis(0, np.asarray(x) + self.off[0]), self.basis(1, np.asarray(y) + self.off[1])
        C = self.c.reshape(bx.shape[0], by.shape[0])
        return np.einsum('ij,ix,jy->yx', C, bx, by)

    def image(self, shape=SHAPE):
        return self.grid(np.arange(shape[1]), np.arange(shape[0]))

    def logprior(self, c=None):
        if self.sigma is None:
            return 0.
        n = len(self.t[0]) - self.k - 1
        C = (self.c if c is None else c).reshape(n, -1)
        return -.5 * (np.sum(np.diff(C, axis=0)**2) + np.sum(np.diff(C, axis=1)**2)) / self.sigma**2


class CRef(object):
    def __init__(self, v):
        self.v = v

    def clone(self):
        return CRef(self.v)

    def image(self, shape=SHAPE):
        return np.zeros(shape) + self.v


GRIDS = {'4x5': (4, 5), '6x4': (6, 4), '5x5': (5, 5)}


def mksky(kind):
    from tractor.sky import ConstantSky
    if kind == 'const':
        return ConstantSky(2.5), CRef(2.5)
    if kind == 'zero':
        return ConstantSky(0.), CRef(0.)
    from tractor.splinesky import SplineSky
    g, order = kind.split('-')
    nx, ny = GRIDS[g]
    X, Y = np.linspace(-2., 14., nx).round(), np.linspace(-1., 12., ny).round()
    v = 3. + texture((ny, nx), 11)
    return SplineSky(X, Y, v, order=int(order)), Ref(X, Y, v, int(order))


def check(s, r, what):
    want = r.image()
    for scale in (1., -2.):
        base = texture(SHAPE, 4).astype(np.float32)
        im = base.copy()
        s.addTo(im, scale=scale)
        close_img(im.astype(float), base + scale * want, 2e-5 * max(1., np.abs(want).max()), '%s: addTo(scale=%g)' % (what, scale))
    im = np.zeros(SHAPE)
    s.addTo(im)
    close_img(im, want, 1e-9 * max(1., np.abs(want).max()), what + ': addTo')
    if isinstance(r, CRef):
        close(s.getConstant(), r.v, 1e-12, 1e-12, what + ': getConstant')
        same(list(s.getParams()), [s.getConstant()], what + ': parameter')
        return
    close(list(s.getAllParams()), list(r.c), 1e-9, 1e-9, what + ': parameters')
    xs, ys = np.array([.5, 3.25, 9.]), np.array([0., 7.75])
    close_img(s.evaluateGrid(xs, ys), r.grid(xs, ys), 1e-8 * max(1., np.abs(want).max()), what + ': evaluateGrid')
    close(s.getLogPrior(), r.logprior(), 1e-9, 1e-9, what + ': log prior')
    linear(s, r, what)


def linear(s, r, what):
    """getLogPriorDerivatives describes getLogPrior as a function of the thawed parameters"""
    X = s.getLogPriorDerivatives()
    th = [i for i in range(len(r.c)) if i not in r.frozen]
    same(s.numberOfParams(), len(th), what + ': thawed parameters')
    if r.sigma is None:
        expect(X is None or len(X[0]) == 0, what + ': derivatives of no prior')
        return
    if X is None:
        N, A, b = 0, np.zeros((0, len(th))), np.zeros(0)
    else:
        rA, cA, vA, pb, mub = X
        same((len(cA), len(vA)), (len(rA), len(rA)), what + ': block lists')
        b = np.hstack(pb) if len(pb) else np.zeros(0)
        N = len(b)
        same(len(np.hstack(mub)) if len(mub) else 0, N, what + ': length of mub')
        A = np.zeros((N, len(th)))
        for ri, ci, vi in zip(rA, cA, vA):
            expect(np.ndim(ci) == 0, what + ': each block has one column')
            expect(0 <= ci < len(th), what + ': column %r of %d' % (ci, len(th)))
            for rij, vij in zip(ri, vi):
                expect(0 <= rij < N, what + ': row %r of %d' % (rij, N))
                A[rij, ci] += vij
    # -.5 |b - A d|^2 is the log-prior after a step d, up to a constant of the frozen parameters
    n = len(th)
    steps = [np.zeros(n)] + list(np.eye(n)[:: max(1, n // 6)]) + [1. + texture((1, n), 8)[0]] if n else [np.zeros(0)]
    diffs = []
    for d in steps:
        c = r.c.copy()
        c[th] += d
        diffs.append(r.logprior(c) + .5 * np.sum((b - np.dot(A, d))**2))
    sc = 1. + max(abs(x) for x in diffs)
    expect(max(diffs) - min(diffs) < 1e-7 * sc, what + ': the linearised prior differs from the prior by %s' % np.round(diffs, 6).tolist())


def ops(kind):
    o = []
    const = kind in ('const', 'zero')

    def edit(fn):
        def f(s, r):
            r = r.clone()
            return fn(s, r) or s, r
        return f

    def scale(k):
        def f(s, r):
            s.scale(k)
            if const:
                r.v *= k
            else:
                r.c *= k
        return f
    o += [('scale 2', edit(scale(2.))), ('scale -.5', edit(scale(-.5)))]

    def shifted(dx, dy):
        def f(s, r):
            t = s.shifted(dx, dy)
            expect(t is not s, 'shifted() returned its argument')
            check(s, r, 'the sky that was shifted')
            if not const:
                r.off = [r.off[0] + dx, r.off[1] + dy]
                if t.getLogPrior() != s.getLogPrior():
                    pass
            return t
        return f

    def shift(s, r):
        s.shift(2, 1)
        if not const:
            r.off = [r.off[0] + 2, r.off[1] + 1]

    def cp(s, r):
        c = s.copy()
        s.scale(7.)
        s.shift(1, 1)
        s.setParams([x + 1. for x in s.getParams()])
        return c
    o += [('shifted(1,-1)', edit(shifted(1, -1))), ('shift(2,1)', edit(shift)), ('copy', edit(cp))]

    def setp(s, r):
        names = s.getParamNames()
        if not len(names):
            return
        p = list(s.getParams())
        p = [x * .5 + i for i, x in enumerate(p)]
        s.setParams(p)
        if const:
            r.v = p[0]
        else:
            r.c[[i for i in range(len(r.c)) if i not in r.frozen]] = p

    def setone(s, r):
        if const:
            s.setParam(0, 4.)
            r.v = 4.
        else:
            th = [i for i in range(len(r.c)) if i not in r.frozen]
            if th:
                s.setParam(len(th) // 2, 4.)
                r.c[th[len(th) // 2]] = 4.
    o += [('setParams', edit(setp)), ('setParam', edit(setone))]
    if const:
        def sub(s, r):
            s.subtract(1.5)
            r.v -= 1.5
        o.append(('subtract', edit(sub)))
    else:
        def off(s, r):
            s.offset(1.5)
            r.c += 1.5

        def smooth(sig):
            def f(s, r):
                s.setPriorSmoothness(sig)
                r.sigma = sig
            return f

        def frz(I):
            def f(s, r):
                for i in I:
                    s.freezeParam(i)
                r.frozen = r.frozen | frozenset(I)
            return f

        def thaw(s, r):
            s.thawAllParams()
            r.frozen = frozenset()

        def gridcopy(s, r):
            # the values at the control points rebuild the same sky
            from tractor.splinesky import SplineSky
            t = SplineSky(s.xgrid, s.ygrid, s.get_grid(), order=s.order)
            r2 = r.clone()
            r2.off, r2.sigma, r2.frozen = [0, 0], None, frozenset()
            check(t, r2, 'rebuilt from get_grid()')
        o += [('offset', edit(off)), ('smooth 2', edit(smooth(2.))), ('smooth .1', edit(smooth(.1))), ('freeze 0,3', edit(frz([0, 3]))),
              ('freeze 1,2,5,6', edit(frz([1, 2, 5, 6]))), ('thaw', edit(thaw)), ('rebuild', edit(gridcopy))]
    return o


def histories(ck, kind, first, depth):
    O = ops(kind)
    todo = [[first]]
    for d in range(depth - 1):
        todo += [p + [k] for p in todo if len(p) == d + 1 for k in range(len(O))]
    for path in todo:
        names = [O[k][0] for k in path]

        def one():
            s, r = mksky(kind)
            for k in path:
                s, r = O[k][1](s, r)
                ck.step(1)
            check(s, r, 'after ' + '; '.join(names))
            ck.state((kind, r.v) if isinstance(r, CRef) else (kind, tuple(np.round(r.c, 6)), tuple(r.off), r.sigma, r.frozen))
        ck.case('history %s: %s' % (kind, '; '.join(names)), one)


def interpolates(nx, ny, order, seed):
    """a spline sky passes through its control points"""
    from tractor.splinesky import SplineSky
    X, Y = np.arange(nx) * 3. - 1., np.arange(ny) * 4. + .5
    v = texture((ny, nx), seed)
    s = SplineSky(X, Y, v, order=order)
    close_img(s.evaluateGrid(X, Y), v, 1e-8, 'values at the control points')
    close_img(s.get_grid(), v, 1e-8, 'get_grid')
    same(s.numberOfParams(), nx * ny, 'number of parameters')
    t = s.shifted(2, 3)
    close_img(t.evaluateGrid(X - 2, Y - 3), v, 1e-8, 'values at the control points, shifted')


# ------------------------------------------------------------------ estimation
def blanton(H, W, g, maskkind, mf):
    from tractor.splinesky import SplineSky
    y, x = np.mgrid[:H, :W]
    masks = dict(none=None, all=np.ones((H, W), bool), checker=(x + y) % 2 == 0, block=~((x > W // 3) & (x < W // 2) & (y > H // 3)),
                 left=x > W // 2, sparse=(x * 7 + y * 5) % 11 == 0, nothing=np.zeros((H, W), bool))
    m = masks[maskkind]
    m0 = None if m is None else m.copy()
    kw = {} if mf is None else dict(min_fraction=mf)
    im = (10. * texture((H, W), 21) + .1 * x).astype(np.float32)
    if m is not None:
        im[~m] = 1e6
    im0 = im.copy()
    s = SplineSky.BlantonMethod(im, m, g, **kw)
    expect(np.array_equal(im, im0) and (m is None or np.array_equal(m, m0)), 'inputs changed')
    hb = g // 2
    vals = s.evaluateGrid(s.xgrid, s.ygrid)
    for iy, yg in enumerate(s.ygrid):
        for ix, xg in enumerate(s.xgrid):
            sl = (slice(max(0, int(yg) - hb), max(0, min(H, int(yg) + hb))), slice(max(0, int(xg) - hb), max(0, min(W, int(xg) + hb))))
            px = im[sl]
            n = px.size
            if m is not None:
                px = px[m[sl]]
            want = float(np.median(px)) if px.size else 0.
            if m is not None and mf is not None and px.size <= n * mf:
                want = 0.
            close(float(vals[iy, ix]), want, 1e-6, 1e-4, 'median of the box at %d,%d' % (xg, yg))
    # the boxes cover the picture
    for G, n in ((s.xgrid, W), (s.ygrid, H)):
        G = np.array(G)
        expect(np.all(np.diff(G) > 0), 'grid not increasing')
        expect(G[0] - hb <= 0 and G[-1] + hb >= n - 1, 'grid %s does not cover %d pixels' % (G.tolist(), n))
        # ... and are centred on it
        expect(abs(G[0] - (n - G[-1])) <= 2., 'grid %s is not centred on %d pixels' % (G.tolist(), n))
    # a flat picture has a flat sky, whatever is masked
    flat = np.zeros((H, W), np.float32) + 3.5
    if m is not None:
        flat[~m] = -1e5
    if maskkind in ('none', 'all', 'checker'):
        s = SplineSky.BlantonMethod(flat, m, g)
        out = np.zeros((H, W))
        s.addTo(out)
        close_img(out, np.zeros((H, W)) + 3.5, 1e-6, 'flat sky')


def estimator(pix, mask, mf):
    from tractor.splinesky import median_estimator
    p = np.array(pix, float).reshape(2, -1)
    m = None if mask is None else np.array(mask, bool).reshape(2, -1)
    got = median_estimator(p, m, **({} if mf is None else dict(min_fraction=mf)))
    q = p.ravel() if m is None else p[m]
    want = float(np.median(q)) if len(q) else 0.
    if m is not None and mf is not None and len(q) <= p.size * mf:
        want = 0.
    close(float(got), want, 1e-12, 1e-12, 'median')


# ------------------------------------------------------------------ fits
def fit(kind, opt, sigma, frozen, nsrc):
    """one update of the sky coefficients is the least-squares solution with the smoothness terms as extra rows"""
    import tractor as T
    from tractor.lsqr_optimizer import LsqrOptimizer
    from tractor.dense_optimizer import ConstrainedDenseOptimizer
    s, r = mksky(kind)
    I = [i for i in range(len(r.c)) if frozen(i)]
    for i in I:
        s.freezeParam(i)
    r.frozen = frozenset(I)
    r.sigma = sigma
    if sigma is not None:
        s.setPriorSmoothness(sigma)
    H, W = SHAPE
    ie = (.5 + .5 * np.abs(texture(SHAPE, 31))).astype(np.float32)
    data = (3. + 2. * texture(SHAPE, 30)).astype(np.float32)
    im = T.Image(data=data, inverr=ie, psf=T.NCircularGaussianPSF([1.2], [1.]), wcs=T.NullWCS(), sky=s, photocal=T.LinearPhotoCal(1.))
    im.freezeAllBut('sky')
    srcs = [T.PointSource(T.PixPos(4. + 3 * k, 5.), T.Flux(20.)) for k in range(nsrc)]
    for q in srcs:
        q.freezeAllBut('brightness')
    o = LsqrOptimizer() if opt == 'lsqr' else ConstrainedDenseOptimizer()
    tr = T.Tractor([im], srcs, optimizer=o)
    p0 = np.array(tr.getParams())
    n = len(p0)
    th = [i for i in range(len(r.c)) if i not in r.frozen]
    # reference: the model is linear
    base = np.array(tr.getModelImage(0), float)
    cols = []
    for i in th:
        q = r.clone()
        q.c = np.zeros(len(r.c))
        q.c[i] = 1.
        cols.append(q.image())
    for k in range(nsrc):
        cols.append(np.array(T.Tractor([im], [T.PointSource(T.PixPos(4. + 3 * k, 5.), T.Flux(1.))]).getModelImage(0, sky=False), float))
    A = np.array([(c * ie).ravel() for c in cols]).T
    b = ((data - base) * ie).ravel()
    if sigma is not None:
        nx = len(r.t[0]) - r.k - 1
        J = np.arange(len(r.c)).reshape(nx, -1)
        rows, rb = [], []
        for lo, hi in ((J[:-1], J[1:]), (J[:, :-1], J[:, 1:])):
            for a_, b_ in zip(lo.ravel(), hi.ravel()):
                e = np.zeros(n)
                if a_ in th:
                    e[th.index(a_)] = 1. / sigma
                if b_ in th:
                    e[th.index(b_)] = -1. / sigma
                rows.append(e)
                rb.append((r.c[b_] - r.c[a_]) / sigma)
        A = np.vstack([A, np.array(rows)])
        b = np.hstack([b, rb])
    X, _, rank, sv = np.linalg.lstsq(A, b, rcond=None)
    expect(rank == n, 'harness: rank')
    alld = tr.getDerivs()
    same(len(alld), n, 'derivatives')
    got = np.array(tr.optimizer.getUpdateDirection(tr, alld, priors=True, shared_params=False), float)
    same(len(got), n, 'length of the update')
    # judge by the chi-squared it leaves: the problem may be ill-conditioned
    res = lambda x: np.sum((b - np.dot(A, x))**2)
    base2, best, g = res(np.zeros(n)), res(X), res(got)
    expect(g - best <= 1e-3 * (base2 - best) + 1e-4, 'the update leaves chi^2 + prior %.6g; the least-squares solution leaves %.6g (start: %.6g)' % (g, best, base2))
    close(list(tr.getParams()), list(p0), 0, 0, 'parameters untouched')


def run(ck):
    th = ck.thorough
    kinds = ['const', 'zero', '4x5-3', '6x4-1'] + (['5x5-2', '6x4-3', '4x5-1'] if th else [])
    depth = dict(const=5 if th else 4, zero=4)
    ck.section('histories', 'all sequences of operations on %s: depth %s' % (kinds, '4/3' if th else '4/3 (constant/spline)'))
    items = [(k, f) for k in kinds for f in range(len(ops(k)))]

    def shard(sub, it):
        histories(sub, it[0], it[1], depth.get(it[0], 4 if th and it[0] == '4x5-3' else 3))
    ck.shards(items, shard)
    ck.section('interpolation', 'grid sizes x orders')
    for nx, ny, o in itertools.product(range(2, 8 if th else 6), range(2, 8 if th else 6), (1, 2, 3)):
        if nx > o and ny > o:
            ck.case('interp %d %d %d' % (nx, ny, o), interpolates, nx, ny, o, nx + 10 * ny)
    ck.section('estimation', 'picture shapes x box sizes x masks x minimum fractions')
    for (H, W), g in itertools.product([(20, 24), (33, 17), (16, 41), (25, 25)] + ([(40, 31), (64, 50)] if th else []), [6, 7, 8, 13, 16] + ([10, 5] if th else [])):
        for m, mf in itertools.product(['none', 'all', 'checker', 'block', 'left', 'sparse', 'nothing'], [None, .3]):
            ck.case('blanton %dx%d %d %s %s' % (H, W, g, m, mf), blanton, H, W, g, m, mf)
    vals = [3., -1., 7., 2.]
    for m in [None] + list(itertools.product([0, 1], repeat=4)):
        for mf in (None, 0., .25, .5, .75):
            ck.case('estimator %s %s' % (m, mf), estimator, vals, m, mf)
    ck.section('fits', 'spline kinds x optimisers x prior widths x frozen patterns x sources')
    F = [('none', lambda i: False), ('some', lambda i: i in (0, 4, 5)), ('even', lambda i: i % 2 == 0), ('most', lambda i: i not in (3, 8))]
    for k, o, sg, (fn, f), ns in itertools.product(['4x5-1', '6x4-1', '4x5-3'], ['lsqr', 'dense'], [None, 1., .05], F, [0, 1]):
        if sg is None and fn == 'none' and k == '4x5-3':
            continue
        ck.case('fit %s %s %s %s %d' % (k, o, sg, fn, ns), fit, k, o, sg, f, ns)
    ck.assumptions.append('a spline sky is extrapolated beyond its outer control points by its boundary value (scipy)')
