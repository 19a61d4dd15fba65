"""
P15: Gaussian mixtures evaluate, transform and combine exactly.

A: point, grid, masked and approximate evaluators (C) against a plain float64
   sum, over a menu of mixtures x boxes x offsets; every boolean pattern of a
   3x3 mask; x/y derivatives.
B: Fourier transforms (C and numpy) against the closed form.
C: operation histories (shift/shear/convolve/extend/add/normalise/copy)
   against a list model.
"""
import itertools
import numpy as np
from mc import ref
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import dense

I2 = np.eye(2)


def C(a, b, d):
    return [[a, b], [b, d]]


MENU = {
    'unit': ([1.], [[0., 0.]], [C(1., 0., 1.)]),
    'tilt': ([2.], [[.3, -.2]], [C(3., 1.2, 1.5)]),
    'neg': ([-1.5], [[0., .4]], [C(2., -.9, 2.5)]),
    'two': ([.7, .3], [[0., 0.], [.4, -.3]], [C(1.7, .3, 1.5), C(4.2, -.4, 5.1)]),
    'mixed': ([1.2, -.2], [[.1, 0.], [0., .5]], [C(1.7, .3, 1.5), C(6., 0., 3.)]),
    'zeroamp': ([0., 1.], [[9., 9.], [.2, .2]], [C(1., 0., 1.), C(2., .5, 2.)]),
    'wide': ([1.], [[.5, .5]], [C(80., 20., 60.)]),
    'thin': ([1.], [[0., 0.]], [C(9., 5.8, 4.)]),
    'small': ([1.], [[.25, 0.]], [C(.15, .02, .1)]),
    'three': ([.5, .3, .2], [[0., 0.], [0., 0.], [0., 0.]], [C(1., 0., 1.), C(4., 1., 3.), C(9., 0., 12.)]),
    'far': ([1.], [[40., -30.]], [C(5., 0., 5.)]),
}
# for transforms only: components narrower than a pixel
NARROW = {
    'narrow': ([.6, .4], [[0., 0.], [.2, -.1]], [C(.04, .01, .03), C(2e-3, 0., 1e-3)]),
    'line': ([1.], [[0., 0.]], [C(.04, .02, .01)]),
    'delta': ([.3, .7], [[.1, 0.], [0., 0.]], [C(0., 0., 0.), C(1e-2, -4e-3, 2e-2)]),
    'ray': ([.5, .5], [[0., 0.], [0., 0.]], [C(0., 0., .05), C(.06, 0., 0.)]),
}
POSITIVE = ['unit', 'tilt', 'two', 'wide', 'thin', 'three', 'small', 'far']


def mog(name):
    from tractor.mixture_profiles import MixtureOfGaussians
    a, m, v = MENU[name] if name in MENU else NARROW[name]
    return MixtureOfGaussians(np.array(a), np.array(m), np.array(v))


def truth(M, xs, ys, fx, fy):
    a, m, v = M
    return ref.gauss_sum(a, [(p[0] + fx, p[1] + fy) for p in m], v, xs, ys)


def dtruth(M, xs, ys, fx, fy):
    """Derivatives with respect to the mean position."""
    a, m, v = M
    X, Y = np.meshgrid(np.asarray(xs, float), np.asarray(ys, float))
    dx = np.zeros(X.shape)
    dy = np.zeros(X.shape)
    for ak, mk, vk in zip(a, m, v):
        V = np.linalg.inv(np.array(vk))
        G = ref.gauss_sum([ak], [(mk[0] + fx, mk[1] + fy)], [vk], xs, ys)
        ex, ey = X - mk[0] - fx, Y - mk[1] - fy
        dx += G * (V[0, 0] * ex + V[0, 1] * ey)
        dy += G * (V[1, 0] * ex + V[1, 1] * ey)
    return dx, dy


def peak(M):
    return sum(abs(a) / (2 * np.pi * np.sqrt(np.linalg.det(np.array(v)))) for a, v in zip(M[0], M[2]))


def snapshot(g):
    return (g.amp.copy(), g.mean.copy(), g.var.copy())


def unchanged(g, s):
    expect(np.array_equal(g.amp, s[0]) and np.array_equal(g.mean, s[1]) and np.array_equal(g.var, s[2]), 'the mixture was modified')


def check_points(ck, name):
    g = mog(name)
    s = snapshot(g)
    M = MENU[name]
    pts = np.array([(x, y) for x in np.arange(-6, 7, 1.5) for y in np.arange(-5.5, 6, 1.25)])
    r = np.array([ref.gauss_sum(*M, [p[0]], [p[1]])[0, 0] for p in pts])
    for nm in ('evaluate', 'evaluate_1', 'evaluate_2', 'evaluate_3'):
        v = getattr(g, nm)(pts)
        close(v, r, rtol=1e-9, atol=1e-12 * peak(M) + 1e-18, what=nm)
        one = getattr(g, nm)(pts[5])
        close(one, r[5:6], rtol=1e-9, atol=1e-12 * peak(M) + 1e-18, what=nm + ' of one point')
        # strided and non-contiguous input
        v = getattr(g, nm)(pts[::-2])
        close(v, r[::-2], rtol=1e-9, atol=1e-12 * peak(M) + 1e-18, what=nm + ' of a strided array')
        ck.step(3)
    unchanged(g, s)
    v = g.evaluate_grid_hogg(-3, 4, -2, 6)
    close(v, ref.gauss_sum(*M, range(-3, 4), range(-2, 6)), rtol=1e-9, atol=1e-18, what='evaluate_grid_hogg')


BOXES = [(x0, x0 + w, y0, y0 + h) for x0 in (-7, -1, 3) for y0 in (-6, 0, 4) for w in (1, 4, 9) for h in (1, 5, 8)]
OFFS = [(0., 0.), (.5, -.25), (3.3, 2.1), (-8.4, 5.)]


def check_grid(ck, name, box, off):
    g = mog(name)
    s = snapshot(g)
    M = MENU[name]
    x0, x1, y0, y1 = box
    fx, fy = off
    r = truth(M, range(x0, x1), range(y0, y1), fx, fy)
    tol = 1e-9 * peak(M)
    for nm in ('evaluate_grid', 'evaluate_grid_dstn'):
        p = getattr(g, nm)(x0, x1, y0, y1, fx, fy)
        same((p.x0, p.y0, p.shape), (x0, y0, r.shape), 'footprint of ' + nm)
        close_img(p.patch, r, tol, nm)
    # masked, all pixels, with and without derivatives
    mask = np.ones(r.shape, bool)
    p = g.evaluate_grid_masked(x0, y0, mask, fx, fy)
    same((p.x0, p.y0, p.shape), (x0, y0, r.shape), 'footprint of evaluate_grid_masked')
    close_img(p.patch, r, 2e-5 * peak(M), 'evaluate_grid_masked')
    dx, dy = dtruth(M, range(x0, x1), range(y0, y1), fx, fy)
    dt = 1e-4 * max(np.abs(dx).max(), np.abs(dy).max()) + 2e-5 * peak(M)
    q, qx, qy = g.evaluate_grid_masked(x0, y0, mask, fx, fy, derivs=True)
    expect(np.array_equal(q.patch, p.patch), 'values differ when derivatives are requested')
    close_img(qx.patch, dx, dt, 'x derivative (masked)')
    close_img(qy.patch, dy, dt, 'y derivative (masked)')
    ck.step(4)
    # approximate evaluation
    for minval in (0., 1e-9, 1e-4, 1e-2):
        full = g.evaluate_grid_approx3(x0, x1, y0, y1, fx, fy, minval, doslice=False)
        cut = g.evaluate_grid_approx3(x0, x1, y0, y1, fx, fy, minval)
        der = g.evaluate_grid_approx3(x0, x1, y0, y1, fx, fy, minval, derivs=True)
        same((full.x0, full.y0, full.shape), (x0, y0, r.shape), 'footprint of the approximate evaluation')
        close_img(dense(cut, box), full.patch, 0., 'approximate evaluation, sliced or not')
        expect(np.array_equal(der[0].patch, cut.patch) and der[0].x0 == cut.x0 and der[0].y0 == cut.y0,
               'approximate values differ when derivatives are requested')
        for d in der[1:]:
            same((d.x0, d.y0, d.shape), (cut.x0, cut.y0, cut.shape), 'footprint of derivatives')
        if name in POSITIVE:
            # nothing brighter than the cutoff is lost
            close_img(full.patch, r, 2. * minval + tol, 'approximate evaluation with cutoff %g' % minval)
            on = full.patch > 2. * minval + tol
            if minval <= 1e-9:
                close_img(dense(der[1], box)[on], dx[on], dt, 'x derivative (approximate)')
                close_img(dense(der[2], box)[on], dy[on], dt, 'y derivative (approximate)')
            p = None
            from tractor.mixture_profiles import mixture_to_patch
            if fx == 0 and fy == 0:
                for exact in (False, True):
                    p = mixture_to_patch(g, x0, x1, y0, y1, minval, exactExtent=exact)
                    close_img(dense(p, box), r, 2. * minval + tol, 'mixture_to_patch')
                    if exact:
                        same((p.x0, p.y0, p.shape), (x0, y0, r.shape), 'footprint of mixture_to_patch')
        elif minval == 0. and name == 'neg':
            pass
        ck.step(3)
    if name in POSITIVE:
        for minval in (1e-6, 1e-3):
            a = g.evaluate_grid_approx(x0, x1, y0, y1, fx, fy, minval)
            close_img(a, r, 2. * minval + tol, 'evaluate_grid_approx with cutoff %g' % minval)
    # far outside the box: nothing
    unchanged(g, s)
    ck.state((name, box, off))
    ck.outcome(float(np.round(r.sum(), 9)))


def check_mask(ck, name, bits, corner):
    g = mog(name)
    M = MENU[name]
    mask = np.array(bits, bool).reshape(3, 3)
    x0, y0 = corner
    r = truth(M, range(x0, x0 + 3), range(y0, y0 + 3), .3, .1)
    dx, dy = dtruth(M, range(x0, x0 + 3), range(y0, y0 + 3), .3, .1)
    p, px, py = g.evaluate_grid_masked(x0, y0, mask, .3, .1, derivs=True)
    t = 2e-5 * peak(M)
    for a, b, w, tol in ((p, r, 'value', t), (px, dx, 'x derivative', 5 * t), (py, dy, 'y derivative', 5 * t)):
        same((a.x0, a.y0, a.shape), (x0, y0, (3, 3)), 'footprint')
        expect(not np.any(a.patch[~mask]), '%s evaluated outside the mask', w)
        close_img(a.patch[mask], b[mask], tol, w)
    ck.step()


def check_degenerate(ck, name, v, amp, where, derivs, off):
    """a component that is unrepresentably narrow or wide contributes nothing to the masked evaluator, and spoils nothing"""
    from tractor.mixture_profiles import MixtureOfGaussians
    a, m, V = MENU[name]
    i = 0 if where == 'first' else len(a)
    bad = np.array([[v, 0.], [0., v]])
    g = MixtureOfGaussians(np.array(list(a[:i]) + [amp] + list(a[i:]), float), np.array(list(m[:i]) + [[0., 0.]] + list(m[i:]), float),
                           np.array(list(V[:i]) + [bad] + list(V[i:]), float))
    mask = np.ones((7, 8), bool)
    got = g.evaluate_grid_masked(-4, -3, mask, off[0], off[1], derivs=derivs)
    want = mog(name).evaluate_grid_masked(-4, -3, mask, off[0], off[1], derivs=derivs)
    for p, q, w in zip(*(((got,), (want,), ('value',)) if not derivs else (got, want, ('value', 'x derivative', 'y derivative')))):
        close_img(p.patch, q.patch, 1e-6 * peak(MENU[name]), '%s next to a degenerate component' % w)
    ck.step()


def check_fourier(ck, name, H, W):
    g = mog(name)
    s = snapshot(g)
    a, m, v = MENU[name] if name in MENU else NARROW[name]
    vx = np.fft.rfftfreq(W)
    wy = np.fft.fftfreq(H)
    for zero_mean in (False, True):
        F = np.zeros((H, len(vx)), complex)
        for ak, mk, vk in zip(a, m, v):
            X, Y = np.meshgrid(vx, wy)
            t = ak * np.exp(-2 * np.pi**2 * (vk[0][0] * X**2 + 2 * vk[0][1] * X * Y + vk[1][1] * Y**2))
            if not zero_mean:
                t = t * np.exp(-2j * np.pi * (mk[0] * X + mk[1] * Y))
            F += t
        for c in (True, False):
            f = g.getFourierTransform(vx, wy, use_mp_fourier=c, zero_mean=zero_mean)
            same(f.shape, F.shape, 'shape of the transform')
            close_img(np.real(f), F.real, 1e-10 * np.abs(a).sum(), 'Fourier transform, real part (zero_mean=%s, C=%s)' % (zero_mean, c))
            close_img(np.imag(f), F.imag, 1e-10 * np.abs(a).sum(), 'Fourier transform, imaginary part (zero_mean=%s, C=%s)' % (zero_mean, c))
            ck.step()
    unchanged(g, s)
    # the discrete transform of a well-sampled, well-contained mixture
    if name in ('unit', 'tilt', 'two', 'mixed') and H >= 32 and W >= 32:
        img = truth(MENU[name], range(-(W // 2), W - W // 2), range(-(H // 2), H - H // 2), 0., 0.)
        D = np.fft.rfft2(np.fft.ifftshift(img))
        f = g.getFourierTransform(vx, wy)
        lam = min(np.linalg.eigvalsh(np.array(t))[0] for t in v)
        expect(np.abs(D - f).max() < 4 * np.abs(a).sum() * np.exp(-.5 * np.pi**2 * lam) + 1e-6, 'transform differs from that of the sampled image by %g', np.abs(D - f).max())


S1 = np.array([[1.2, .3], [-.1, .8]])
S2 = np.array([[0., -1.], [1., 0.]])
OPS = ['affine1', 'affine2', 'shear1', 'conv-two', 'conv-neg', 'add-tilt', 'add-neg', 'extend-unit', 'extend-tilt',
       'extend-neg', 'extend-self', 'normalize', 'copy', 'copyedit']


def apply_real(g, op):
    if op == 'affine1':
        return g.apply_affine(np.array([1.5, -.5]), S1)
    if op == 'affine2':
        return g.apply_affine(np.array([0., 2.]), S2)
    if op == 'shear1':
        return g.apply_shear(S1)
    if op == 'extend-self':
        h = g.copy()
        h.extend(g)
        return h
    if op.startswith('conv') or op.startswith('add') or op.startswith('extend'):
        o = mog(op.split('-')[1])
        s = snapshot(o)
        if op.startswith('conv'):
            r = g.convolve(o)
        elif op.startswith('add'):
            r = g + o
        else:
            r = g.copy()
            r.extend(o)
        unchanged(o, s)
        # nor does the result hold on to its operands
        s = snapshot(r)
        o.amp *= 2.
        o.mean += 1.
        o.var *= 3.
        unchanged(r, s)
        return r
    if op == 'normalize':
        h = g.copy()
        h.normalize()
        return h
    if op == 'copyedit':
        # a copy is independent: edit it and throw it away
        h = g.copy()
        h.mean += 1.
        h.var *= 2.
        h.amp *= 3.
        return g
    return g.copy()


def apply_ref(M, op):
    a, m, v = [np.array(t, float) for t in M]
    if op in ('affine1', 'affine2', 'shear1'):
        S = S2 if op == 'affine2' else S1
        sh = dict(affine1=[1.5, -.5], affine2=[0., 2.], shear1=[0., 0.])[op]
        return a, m + np.array(sh), np.array([S.dot(t).dot(S.T) for t in v])
    if op.startswith('conv'):
        b, n, w = [np.array(t, float) for t in MENU[op[5:]]]
        return (np.array([x * y for y in b for x in a]), np.array([x + y for y in n for x in m]), np.array([x + y for y in w for x in v]))
    if op == 'extend-self':
        return np.append(a, a), np.vstack([m, m]), np.vstack([v, v])
    if op.startswith('add') or op.startswith('extend'):
        b, n, w = [np.array(t, float) for t in MENU[op.split('-')[1]]]
        A = np.append(a, b)
        if op.startswith('add'):
            A = A / A.sum()
        return A, np.vstack([m, n]), np.vstack([v, w])
    if op == 'normalize':
        return a / a.sum(), m, v
    return a, m, v


def check_history(ck, name, ops):
    g = mog(name)
    M = tuple(np.array(t, float) for t in MENU[name])
    hist = [(g, snapshot(g))]
    for op in ops:
        extra = dict([('normalize', 0.), ('add-tilt', 2.), ('add-neg', -1.5)]).get(op)
        if extra is not None and abs(M[0].sum() + extra) < 1e-6:
            return
        g = apply_real(g, op)
        M = apply_ref(M, op)
        same((g.K, g.D), (len(M[0]), 2), 'size after ' + op)
        ck.step()
        hist.append((g, snapshot(g)))
        close(g.amp.sum(), M[0].sum(), rtol=1e-9, atol=1e-12, what='total amplitude after ' + op)
    xs, ys = range(-4, 6), range(-5, 4)
    r = ref.gauss_sum(M[0], M[1], M[2], xs, ys)
    p = g.evaluate_grid(xs[0], xs[-1] + 1, ys[0], ys[-1] + 1, 0., 0.)
    close_img(p.patch, r, 1e-9 * peak(M), 'mixture after %s' % (ops,))
    g.test()
    for h, s in hist:
        unchanged(h, s)
    ck.state((name, ops))
    ck.outcome(float(np.round(r.sum(), 9)))


def check_sym(vs):
    """a covariance given with unequal off-diagonals is taken as its symmetric part; the caller's arrays stay as they were"""
    from tractor.mixture_profiles import MixtureOfGaussians
    a, b, c, d = vs
    amp, mean, var = np.array([1., .5]), np.array([[0., 0.], [1., -1.]]), np.array([[[a, b], [c, d]], [[a + 1., c], [b, d + 2.]]])
    keep = [x.copy() for x in (amp, mean, var)]
    g = MixtureOfGaussians(amp, mean, var)
    m = .5 * (b + c)
    close(g.var, np.array([[[a, m], [m, d]], [[a + 1., m], [m, d + 2.]]]), 1e-13, 1e-13, 'symmetric covariance')
    for x, y, n in zip((amp, mean, var), keep, ('amplitudes', 'means', 'variances')):
        same(x.tolist(), y.tolist(), n + ' passed in')


def run(ck):
    ck.section('A points', 'all mixtures x evaluators on a point grid')
    for n in sorted(MENU):
        ck.case(('points', n), check_points, ck, n)
    ck.section('A grids', '%d mixtures x %d boxes x %d offsets x cutoffs' % (len(MENU), len(BOXES), len(OFFS)))

    def sh(sub, n):
        for box in BOXES:
            for off in OFFS:
                sub.case(('grid', n, box, off), check_grid, sub, n, box, off)
    ck.shards(sorted(MENU), sh)
    ck.section('A masks', 'all 512 boolean patterns of a 3x3 mask x mixtures x corners')
    for n in (sorted(MENU) if ck.thorough else ['two', 'tilt', 'mixed']):
        for corner in ((-1, -1), (2, 0)):
            for bits in itertools.product([0, 1], repeat=9):
                ck.case(('mask', n, corner, bits), check_mask, ck, n, bits, corner)
    ck.section('A degenerate', 'an unrepresentably narrow or wide component first or last x mixtures x amplitudes x offsets x derivatives')
    for n in sorted(MENU):
        for v, amp, where, derivs, off in itertools.product((0., 1e-25, 1e25), (1., -2.), ('first', 'last'), (False, True), ((0., 0.), (.3, -.2))):
            ck.case(('degenerate', n, v, amp, where, derivs, off), check_degenerate, ck, n, v, amp, where, derivs, off)
    ck.section('B Fourier', 'mixtures x sizes x C/numpy')
    for n in sorted(MENU) + sorted(NARROW):
        for H, W in itertools.product([1, 2, 5, 8, 32, 33], repeat=2):
            ck.case(('fourier', n, H, W), check_fourier, ck, n, H, W)
    for vs in itertools.product([3., 1., 5.], [0., .5, -1.], [0., .5, 1.5], [2., 4.]):
        ck.case(('covariance', vs), check_sym, vs)
    d = 4 if ck.thorough else 3
    ck.section('C histories', 'all operation sequences up to length %d over %d operations' % (d, len(OPS)))

    def shC(sub, n):
        for L in range(1, d + 1):
            for ops in itertools.product(OPS, repeat=L):
                sub.case(('history', n) + ops, check_history, sub, n, ops)
    ck.shards(['unit', 'tilt', 'two', 'mixed'], shC)
