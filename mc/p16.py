"""
P16: PSF images at any sub-pixel position, size and call history.

A: the image-shifting kernels (C and python) as linear operators: every unit
   impulse of small images x sub-pixel shifts, against a plain 7-tap Lanczos
   matrix; guard words around every buffer.
B: star images of every PSF kind x positions x radii x cut-offs x clipping.
C: Fourier transforms x sizes x all call orders.
"""
import itertools
import numpy as np
from mc import scene, ref
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import dense

SHIFTS = [-.5, -.37, -.125, 0., .01, .25, .5]


def taps(d, order=3):
    x = np.arange(-order, order + 1) + d
    f = np.zeros(2 * order + 1)
    for i, t in enumerate(x):
        if abs(t) < 1e-300:
            f[i] = 1.
        elif abs(t) < order:
            f[i] = np.sinc(t) * np.sinc(t / order)
    return f / f.sum()


def corr_matrix(n, f):
    """out = M @ in, out[i] = sum_k in[i+k-r] f[k]."""
    r = len(f) // 2
    M = np.zeros((n, n))
    for i in range(n):
        for k in range(len(f)):
            j = i + k - r
            if 0 <= j < n:
                M[i, j] = f[k]
    return M


def shift_ref(img, dx, dy):
    H, W = img.shape
    return corr_matrix(H, taps(dy)).dot(img).dot(corr_matrix(W, taps(dx)).T)


def guarded(shape, dtype, fill):
    n = int(np.prod(shape))
    buf = np.empty(n + 128, dtype)
    buf[:] = fill
    return buf, buf[64:64 + n].reshape(shape)


def check_shift(ck, H, W, dx, dy):
    from tractor.psf import lanczos_shift_image
    RX, RY = corr_matrix(W, taps(dx)), corr_matrix(H, taps(dy))
    for dt in (np.float32, np.float64):
        for i in range(H * W):
            img = np.zeros((H, W), dt)
            img.flat[i] = 1.
            r = np.outer(RY[:, i // W], RX[:, i % W])
            for fp in (False, True):
                keep = img.copy()
                out = lanczos_shift_image(img, dx, dy, force_python=fp)
                expect(np.array_equal(img, keep), 'input modified (python=%s)', fp)
                close_img(out, r, 1e-6, 'impulse %s shifted by (%g,%g), python=%s' % ((i // W, i % W), dx, dy, fp))
                ck.step()
            keep = img.copy()
            out = lanczos_shift_image(keep, dx, dy, inplace=True)
            close_img(keep, r, 1e-6, 'in-place shift')
            close_img(out, r, 1e-6, 'in-place shift (returned image)')
    ck.outcome((H, W))


def check_corr(ck, H, W, which):
    from tractor import mp_fourier
    fx = np.array([.3, -.2, .5, 1., .7, -.1, .05])
    fy = np.array([-.4, .6, .1, .9, -.3, .2, .15])
    RX, RY = corr_matrix(W, fx), corr_matrix(H, fy)
    dt = np.float64 if which == 'correlate7' else np.float32
    for i in list(range(H * W)) + [-1]:
        bi, im = guarded((H, W), dt, 7.)
        bo, out = guarded((H, W), dt, 9.)
        bw, work = guarded((H + 2, W + 1), dt, 11.)
        im[:, :] = 0.
        out[:, :] = -5.
        work[:, :] = 3.
        if i < 0:
            im[:, :] = texture((H, W), 3)
        else:
            im.flat[i] = 1.
        r = RY.dot(np.array(im, float)).dot(RX.T)
        if which == 'correlate7f_inout':
            keep = im.copy()
            mp_fourier.correlate7f_inout(im, out, fx, fy, work)
            expect(np.array_equal(im, keep), 'input modified')
        else:
            getattr(mp_fourier, which)(im, fx, fy, work)
            out = im
        close_img(out, r, 1e-12 if dt is np.float64 else 2e-6, '%s of %s' % (which, 'texture' if i < 0 else (i // W, i % W)))
        for b, v, n in ((bi, 7., 'image'), (bo, 9., 'output'), (bw, 11., 'work')):
            expect(np.all(b[:64] == v) and np.all(b[-64:] == v), '%s wrote outside the %s array', which, n)
        ck.step()


def stamp(h, w, norm=True):
    X, Y = np.meshgrid(np.arange(w) - w // 2, np.arange(h) - h // 2)
    s = np.exp(-.5 * (X**2 / 2.2 + Y**2 / 1.7 + .3 * X * Y)) + .02 * texture((h, w), 5)
    return scene.lay((s / s.sum() if norm else s * 3.).astype(np.float32))


POS = [(6., 5.), (6.5, 5.5), (5.75, 4.125), (6.49, 5.51), (-3.3, 2.2), (20.01, -7.99), (0., 0.4)]
RADII = [None, 0, 1, 2, 2.5, 3, 4, 6, 30]
BIG = (-40, 60, -50, 50)


def check_pix(ck, cls, h, w, pos, radius):
    from tractor import psf as P
    st = stamp(h, w, norm=False)
    keep = st.copy()
    if cls == 'HybridPixelizedPSF':
        pix = P.PixelizedPSF(st)
        psf = P.HybridPixelizedPSF(pix, P.GaussianMixturePSF(*[a.copy() for a in scene.PSF2]))
    else:
        psf = getattr(P, cls)(st)
    px, py = pos
    for rep in range(2):
        p = psf.getPointSourcePatch(px, py, radius=radius)
        s = st.astype(float)
        if cls == 'NormalizedPixelizedPsf':
            s = s / s.sum()
        if radius is not None:
            R = int(np.ceil(radius))
            s = s[max(h // 2 - R, 0):h // 2 + R + 1, max(w // 2 - R, 0):w // 2 + R + 1]
        ix, iy = int(np.floor(px + .5)), int(np.floor(py + .5))
        # a half-way position may round either way; both give the same star
        r = dense_shift(s, px, py)
        box = (p.x0, p.x0 + p.shape[1], p.y0, p.y0 + p.shape[0])
        same(p.shape, s.shape, 'size of the star image')
        expect(abs(p.x0 + s.shape[1] // 2 - px) <= .5 + 1e-9 and abs(p.y0 + s.shape[0] // 2 - py) <= .5 + 1e-9,
               'star image not centred on the star: corner (%s,%s)', p.x0, p.y0)
        rr = r(box)
        close_img(p.patch, rr, 3e-6 * np.abs(st).max() + 1e-7, 'star at %s radius %s (call %d)' % (pos, radius, rep))
        ck.step()
    expect(np.array_equal(st, keep), 'the stamp passed in was modified')
    if radius is None and h > 9 and w > 9:
        expect(abs(p.patch.sum() - s.sum()) < .05 * s.sum(), 'flux of the star image %g, stamp has %g', p.patch.sum(), s.sum())
    ck.state((cls, h, w, pos, radius))
    ck.outcome(float(np.round(rr.sum(), 4)))


def dense_shift(s, px, py):
    """The stamp s centred on (px, py), as a function of a pixel box whose corner fixes the rounding."""
    def f(box):
        x0, x1, y0, y1 = box
        h, w = s.shape
        dx = px - (x0 + w // 2)
        dy = py - (y0 + h // 2)
        return shift_ref(s, dx, dy)
    return f


def over_ref(img, sampling, dx, dy, xlo, ylo, w, h):
    """Lanczos-3 interpolation of an oversampled stamp at native pixels."""
    H, W = img.shape

    def mat(n, nimg, lo, d):
        M = np.zeros((n, nimg))
        for i in range(n):
            t = nimg // 2 + ((lo + i) - d) / sampling
            k0 = int(np.floor(t))
            ks = np.arange(k0 - 2, k0 + 4)
            ww = np.sinc(t - ks) * np.sinc((t - ks) / 3.)
            ww[np.abs(t - ks) >= 3] = 0.
            ww = ww / ww.sum()
            for k, v in zip(ks, ww):
                if 0 <= k < nimg:
                    M[i, k] += v
        return M
    return mat(h, H, ylo, dy).dot(img).dot(mat(w, W, xlo, dx).T)


def check_over(ck, cls, n, sampling, pos, radius):
    from tractor import psf as P
    n, nr = n if isinstance(n, tuple) else (n, n)       # columns, rows
    st = stamp(nr, n)
    psf = getattr(P, cls)(st, sampling=sampling)
    px, py = pos
    p = psf.getPointSourcePatch(px, py, radius=radius)
    ix, iy = round(px), round(py)
    nw, nh = int(np.ceil(n * sampling)), int(np.ceil(nr * sampling))
    full = over_ref(st.astype(float), sampling, px - ix, py - iy, -(nw // 2), -(nh // 2), nw, nh)
    if cls.startswith('Norm'):
        u = psf.getPointSourcePatch(px, py)
        close(u.patch.sum(), 1., rtol=1e-5, what='total of a normalised PSF')
        m = int(np.ceil(4 * sampling)) + 1
        full = full * (u.patch[m:-m, m:-m].sum() / full[m:-m, m:-m].sum())
    x0 = ix - nw // 2
    y0 = iy - nh // 2
    # the edge of the stamp: interpolation taps that fall off it are treated differently; the interior must agree
    m = int(np.ceil(4 * sampling)) + 1
    inner = np.zeros(full.shape, bool)
    inner[m:-m, m:-m] = True
    tol = 2e-3 * np.abs(full).max()
    box = (x0, x0 + nw, y0, y0 + nh)
    if radius is not None:
        R = int(np.ceil(radius))
        lo, hi = max(nw // 2 - R, 0), min(nw // 2 + R + 1, nw)
        lo2, hi2 = max(nh // 2 - R, 0), min(nh // 2 + R + 1, nh)
        full = full[lo2:hi2, lo:hi]
        inner = inner[lo2:hi2, lo:hi]
        box = (x0 + lo, x0 + hi, y0 + lo2, y0 + hi2)
    same((p.x0, p.x0 + p.shape[1], p.y0, p.y0 + p.shape[0]), box, 'footprint of the star image')
    close_img(p.patch[inner], full[inner], tol, 'oversampled star (interior)')
    ck.step()
    # any mask: the same values
    from tractor.patch import ModelMask
    full = psf.getPointSourcePatch(px, py)
    for mx0, my0, mw, mh in ((ix - 2, iy - 1, 4, 3), (ix, iy, 1, 1), (ix - nw, iy - nh, 2 * nw, 2 * nh), (ix + 1, iy - 3, 2, 7)):
        q = psf.getPointSourcePatch(px, py, modelMask=ModelMask(mx0, my0, mw, mh))
        b = (mx0, mx0 + mw, my0, my0 + mh)
        same((q.x0, q.y0, q.shape), (mx0, my0, (mh, mw)), 'footprint with a mask')
        fd = dense(full, b)
        m = np.zeros((mh, mw), bool)
        ya, yb, xa, xb = max(full.y0, my0), min(full.y0 + full.shape[0], my0 + mh), max(full.x0, mx0), min(full.x0 + full.shape[1], mx0 + mw)
        m[max(ya - my0, 0):max(yb - my0, 0), max(xa - mx0, 0):max(xb - mx0, 0)] = True
        close_img(q.patch[m], fd[m], 1e-6, 'masked oversampled star (mask %s)' % (b,))
        ck.step()
    ck.outcome((sampling, pos))


def sizes(radius):
    return int(2**np.ceil(np.log2(2. * radius)))


def check_fourier(ck, cls, n, sampling, calls):
    """calls: sequence of (px, py, radius)."""
    from tractor import psf as P
    nx, ny = n if isinstance(n, tuple) else (n, n)
    st = stamp(ny, nx)
    psf = getattr(P, cls)(st, sampling=sampling) if sampling != 1. else getattr(P, cls)(st)
    for px, py, radius in calls:
        F, (cx, cy), (H, W), (v, w) = psf.getFourierTransform(px, py, radius)
        sz = sizes(radius)
        same((H, W), (sz, sz), 'size of the transform')
        same(F.shape, (sz, sz // 2 + 1), 'shape of the transform')
        close(v, np.fft.rfftfreq(sz), what='frequencies')
        close(w, np.fft.fftfreq(sz), what='frequencies')
        img = np.fft.irfft2(F, s=(H, W))
        s = st.astype(float)
        if sampling == 1.:
            if cls.startswith('Norm'):
                s = s / s.sum()
            r = np.zeros((sz, sz))
            # a stamp pixel at offset d from the centre lands at the centre + d, wherever that is inside
            cs = [(sz - k) // 2 + k // 2 if sz >= k else k // 2 - (k - sz) // 2 for k in (nx, ny)]
            for y in range(ny):
                for x in range(nx):
                    X, Y = cs[0] + x - nx // 2, cs[1] + y - ny // 2
                    if 0 <= X < sz and 0 <= Y < sz:
                        r[Y, X] = s[y, x]
            if cls.startswith('Norm') and sz < max(nx, ny):
                r /= r.sum()
            same((cx, cy), tuple(cs), 'centre')
            close_img(img, r, 2e-6, 'transform for radius %s after %s' % (radius, calls))
        else:
            # the transformed image is the stamp interpolated with its centre at (cx, cy)
            r = over_ref(s, sampling, cx - int(cx), cy - int(cy), -1, -1, 3, 3)
            g = img[int(cy) - 1:int(cy) + 2, int(cx) - 1:int(cx) + 2]
            expect(np.all(np.isfinite(img)), 'non-finite transform')
            if cls.startswith('Norm'):
                close(F[0, 0].real, 1., rtol=1e-5, what='total of a normalised PSF')
                r = r * (g.sum() / r.sum())
            close_img(g, r, 2e-3 * r.max() + 1e-6, 'core of the transformed PSF for radius %s after %s' % (radius, calls))
            psf2 = getattr(P, cls)(st, sampling=sampling)
            F2 = psf2.getFourierTransform(px, py, radius)
            expect(np.array_equal(F, F2[0]) and F2[1] == (cx, cy), 'transform depends on earlier calls %s', calls)
        ck.step()
    ck.state((cls, n, sampling, calls))
    ck.outcome((cls, n))


def mogs():
    from tractor import psf as P
    from tractor.ellipses import EllipseESoft
    a, m, v = [x.copy() for x in scene.PSF2]
    two = lambda: P.GaussianMixturePSF(a.copy(), m.copy(), v.copy())
    ells = [EllipseESoft(.3, .1, .2), EllipseESoft(.7, -.3, .1)]
    em = np.array([[0., 0.], [.3, -.2]])
    from mc.ref import soft_to_e, ellipse_basis
    ev = []
    for e in ((.3, .1, .2), (.7, -.3, .1)):
        G = ellipse_basis(*soft_to_e(*e))
        ev.append(G.dot(G.T))
    nc = (np.array([.8, .2]), np.zeros((2, 2)), np.array([1.44 * np.eye(2), 4. * np.eye(2)]))
    return {'gmix': (two, (a, m, v)),
            'ellmix': (lambda: P.GaussianMixtureEllipsePSF(np.array([.7, .3]), em.copy(), ells), (np.array([.7, .3]), em, np.array(ev))),
            'ellmix-const': (lambda: P.GaussianMixtureEllipsePSF(np.array([.7, .3]), em.copy(), ells).constantPsfAt(3., 4.),
                             (np.array([.7, .3]), em, np.array(ev))),
            'ncirc': (lambda: P.NCircularGaussianPSF([1.2, 2.], [.8, .2]), nc),
            'ncirc-scaled': (lambda: P.NCircularGaussianPSF([.6, 1.], [.8, .2]).scale(2.), nc),
            'ncirc-wide-first': (lambda: P.NCircularGaussianPSF([2., 1.2], [.2, .8]), nc),
            'ncirc-frozen-weight': (lambda: frozen(P.NCircularGaussianPSF([1.2, 2.], [.8, .2]), 'weights', 1), nc),
            'ncirc-frozen-sigma': (lambda: frozen(P.NCircularGaussianPSF([1.2, 2.], [.8, .2]), 'sigmas', 0), nc),
            'ncirc-frozen': (lambda: frozen(P.NCircularGaussianPSF([1.2, 2.], [.8, .2]), None, None), nc),
            'gmix-frozen': (lambda: frozen(two(), None, None), (a, m, v)),
            'ellmix-frozen': (lambda: frozen(P.GaussianMixtureEllipsePSF(np.array([.7, .3]), em.copy(), ells), None, None),
                              (np.array([.7, .3]), em, np.array(ev))),
            'gmix-scaled': (lambda: P.GaussianMixturePSF(a.copy(), m / 2., v / 4.).scaleBy(2.), (a, m, v)),
            }


def frozen(psf, sub, i):
    if sub is None:
        psf.freezeAllParams()
    else:
        getattr(psf, sub).freezeParam(i)
    return psf


def check_mog(ck, name, pos, radius, minval, clip):
    make, M = mogs()[name]
    psf = make()
    px, py = pos
    p = psf.getPointSourcePatch(px, py, radius=radius, minval=minval, clipExtent=clip)
    rr = radius
    if radius is None:
        rr = psf.getRadius()
    box = BIG if clip is None else clip
    r = ref.gauss_sum(M[0], [(q[0] + px, q[1] + py) for q in M[1]], M[2], range(*box[:2]), range(*box[2:]))
    ok = np.zeros(r.shape, bool)
    if p is not None:
        d = dense(p, box)
        if clip is not None:
            expect(p.x0 >= clip[0] and p.y0 >= clip[2] and p.x0 + p.shape[1] <= clip[1] and p.y0 + p.shape[0] <= clip[3],
                   'star image exceeds the clipping region: %s', (p.x0, p.y0, p.shape))
        y0, x0 = p.y0 - box[2], p.x0 - box[0]
        ok[y0:y0 + p.shape[0], x0:x0 + p.shape[1]] = True
        close_img(d[ok], r[ok], 2. * minval + 3e-7, 'star at %s' % (pos,))
    else:
        d = np.zeros_like(r)
    # nothing within the radius is missing
    X, Y = np.meshgrid(np.arange(*box[:2]), np.arange(*box[2:]))
    near = (np.abs(X - px) <= rr - .5) & (np.abs(Y - py) <= rr - .5)
    close_img(d[near], r[near], 2. * minval + 3e-7, 'star at %s within the radius %s' % (pos, rr))
    far = (np.abs(X - px) > rr + 1.5) | (np.abs(Y - py) > rr + 1.5)
    expect(not np.any(d[far]), 'star image extends beyond the radius %s', rr)
    if radius is None and clip is None and minval == 0.:
        close(d.sum(), np.sum(M[0]), rtol=1e-4, what='total light of a star drawn to the default radius')
    ck.step()
    ck.outcome((name, float(np.round(d.sum(), 5))))


def run(ck):
    th = ck.thorough
    ck.assumptions.append('interpolation at the outermost taps of an oversampled stamp is done by an external library and compared only inside')
    shp = [(1, 1), (3, 5), (8, 9), (9, 9), (9, 12), (11, 9), (10, 17)] + ([(16, 16), (7, 20), (20, 9), (13, 14)] if th else [])
    ck.section('A impulses', '%d shapes x %d^2 shifts x every impulse x 2 dtypes x C/python' % (len(shp), len(SHIFTS)))

    def shA(sub, s):
        for dx in SHIFTS:
            for dy in SHIFTS:
                sub.case(('shift', s, dx, dy), check_shift, sub, s[0], s[1], dx, dy)
    ck.shards(shp[::-1], shA)
    ck.section('A kernels', 'every impulse of every shape 9..12 (9..17) squared with asymmetric filters and guard words')
    N = range(9, 18 if th else 13)

    def shK(sub, H):
        for W in N:
            for k in ('correlate7', 'correlate7f', 'correlate7f_inout'):
                sub.case(('kernel', k, H, W), check_corr, sub, H, W, k)
    ck.shards(N, shK)
    ck.section('B pixelised stars', 'classes x stamp shapes x positions x radii')
    for cls in ('PixelizedPSF', 'NormalizedPixelizedPsf', 'HybridPixelizedPSF'):
        for h, w in ((1, 1), (3, 3), (5, 7), (9, 9), (11, 13), (15, 9)) + (((21, 21), (7, 31)) if th else ()):
            for pos in POS:
                for r in RADII:
                    ck.case((cls, h, w, pos, r), check_pix, ck, cls, h, w, pos, r)
    ck.section('B oversampled stars', 'classes x samplings x positions x radii x masks')
    for cls in ('PixelizedPSF', 'NormalizedPixelizedPsf'):
        for n, s in ((15, .5), (21, .6), (25, .33), (15, 1.3), ((13, 21), .5), ((21, 15), .6)):
            for pos in POS:
                for r in (None, 1, 3, 30):
                    ck.case((cls, n, s, pos, r), check_over, ck, cls, n, s, pos, r)
    ck.section('B mixture stars', 'mixture PSFs x positions x radii x cut-offs x clipping')
    for name in sorted(mogs()):
        for pos in POS:
            for radius in (None, 2, 3.5, 5, 9):
                for minval in (0., 1e-6, 1e-3):
                    for clip in (None, (0, 12, 0, 11), (5, 6, 4, 9), (-20, 0, -30, 40)):
                        ck.case((name, pos, radius, minval, clip), check_mog, ck, name, pos, radius, minval, clip)
    ck.section('C Fourier', 'classes x stamps x samplings x all sequences of %d calls' % (4 if th else 3))
    menu = [(5., 5., 3.), (5.25, 4.5, 8.), (5.75, 4.1, 8.), (5.25, 4.5, 7.5), (2., 9., 20.)]
    for cls in ('PixelizedPSF', 'NormalizedPixelizedPsf'):
        for n, s in ((9, 1.), (15, 1.), (15, .5), (21, .6), ((9, 15), 1.), ((19, 11), 1.), ((13, 21), .5)):
            for calls in itertools.product(menu, repeat=4 if th else 3):
                ck.case((cls, n, s) + calls, check_fourier, ck, cls, n, s, calls)
    ck.section('D memory layouts', 'stamps in %s order: stars, oversampled stars, transforms' % ', '.join(scene.LAYOUTS))

    def shL(sub, how):
        for cls in ('PixelizedPSF', 'NormalizedPixelizedPsf', 'HybridPixelizedPSF'):
            for pos in POS:
                for h, w in ((5, 7), (11, 13), (15, 9)):
                    for r in (None, 2, 4, 30):
                        sub.case(('layout', how, cls, h, w, pos, r), scene.laid, how, check_pix, sub, cls, h, w, pos, r)
                if cls[0] == 'H':
                    continue
                for n, s in ((15, .5), ((13, 21), .5), ((21, 15), .6)):
                    sub.case(('layout', how, cls, n, s, pos), scene.laid, how, check_over, sub, cls, n, s, pos, None)
            if cls[0] != 'H':
                for n, s in ((9, 1.), ((9, 15), 1.), ((13, 21), .5)):
                    for calls in itertools.permutations(menu, 2):
                        sub.case(('layout', how, cls, n, s) + calls, scene.laid, how, check_fourier, sub, cls, n, s, calls)
    ck.shards(scene.LAYOUTS, shL)
