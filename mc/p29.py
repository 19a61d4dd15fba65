"""
P29: regions of interest and box sums.  Every rectangle of every small image
against explicit sums (integral images, plain and mirror-symmetric); every way
of asking for a region against the definition, for several WCS and images.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, same, texture
from mc.zoo import tan


def rects(H, W):
    return [(x0, x1, y0, y1) for x0 in range(-1, W) for x1 in range(x0 + 1, W) for y0 in range(-1, H) for y1 in range(y0 + 1, H)]


def image(H, W, seed, kind):
    t = texture((H, W), seed)
    if kind == 'int':
        return np.round(t * 9).astype(int)
    if kind == 'float32':
        return t.astype(np.float32)
    return t


def case_integral(H, W, seed, kind):
    from tractor.integral_image import integral_image, intimg_rect
    I = image(H, W, seed, kind)
    keep = I.copy()
    C = integral_image(I)
    same(I.tolist(), keep.tolist(), 'the image')
    want = np.array([[I[:y + 1, :x + 1].sum() for x in range(W)] for y in range(H)])
    tol = 1e-4 if kind == 'float32' else 1e-9
    close(C, want, tol, tol, 'integral image')
    Ck = C.copy()
    R = rects(H, W)
    out = np.array([I[y0 + 1:y1 + 1, x0 + 1:x1 + 1].sum() for x0, x1, y0, y1 in R])
    for i, (x0, x1, y0, y1) in enumerate(R):
        g = intimg_rect(C, x0, x1, y0, y1)
        expect(np.ndim(g) == 0, 'scalar')
        close(g, out[i], tol, tol * 3, 'sum over rectangle %s' % (R[i],))
    a = np.array(R).T
    g = intimg_rect(C, a[0], a[1], a[2], a[3])
    same(np.shape(g), (len(R),), 'shape')
    close(g, out, tol, tol * 3, 'sums of an array of rectangles')
    g = intimg_rect(C, list(a[0][::-1]), list(a[1][::-1]), list(a[2][::-1]), list(a[3][::-1]))
    close(g, out[::-1], tol, tol * 3, 'sums of a list of rectangles')
    same(C.tolist(), Ck.tolist(), 'the integral image')


def case_symmetric(n, seed, kind, extra):
    """(2n+1)^2 image, mirror-symmetric; only the first quadrant's integral image is known (with extra rows and columns)."""
    from tractor.integral_image import integral_image
    from tractor.symmetric_integral_image import symm_intimg_rect, symm_intimg_ref
    N = 2 * n + 1
    q = image(n + 1, n + 1, seed, kind)
    I = np.zeros((N, N), q.dtype)
    for y in range(N):
        for x in range(N):
            I[y, x] = q[min(y, N - 1 - y), min(x, N - 1 - x)]
    C = integral_image(I[:n + 1 + extra, :n + 1 + extra])
    Ck = C.copy()
    tol = 1e-4 if kind == 'float32' else 1e-9
    R = rects(N, N)
    out = np.array([I[y0 + 1:y1 + 1, x0 + 1:x1 + 1].sum() for x0, x1, y0, y1 in R])
    a = np.array(R).T
    g = symm_intimg_rect(C, a[0], a[1], a[2], a[3], n)
    same(np.shape(g), (len(R),), 'shape')
    close(g, out, tol, tol * 9, 'sums')
    for i in range(0, len(R), 7 if n > 2 else 1):
        g = symm_intimg_rect(C, *(R[i] + (n,)))
        expect(np.ndim(g) == 0, 'scalar')
        close(g, out[i], tol, tol * 9, 'sum over rectangle %s' % (R[i],))
    for y in range(N):
        for x in range(N):
            close(symm_intimg_ref(C, x, y, n), I[:y + 1, :x + 1].sum(), tol, tol * 9, 'element (%d,%d)' % (x, y))
    same(C.tolist(), Ck.tolist(), 'the integral image')


def wcs(name):
    from tractor.wcs import TanWcs, ConstantFitsWcs
    from tractor.shifted import ShiftedWcs
    if name == 'tan':
        return TanWcs(tan(crval=(10., 50.), w=20, h=14, rot=25.))
    if name == 'flip':
        return ConstantFitsWcs(tan(crval=(200., -30.), w=20, h=14, rot=-70.))
    return ShiftedWcs(TanWcs(tan(crval=(10., 50.), w=20, h=14, rot=160.)), 3, 2)


def clip(v, hi):
    return int(min(max(v, 0), hi))


def answer(box, H, W):
    x0, x1, y0, y1 = box
    if x0 == x1 or y0 == y1:
        return None
    return (x0, x1, y0, y1), (x0, x1, y0, y1) != (0, W, 0, H)


def check(got, want, what):
    if want is None:
        expect(got is None, '%s: got %r for a region off the image' % (what, got))
        return
    expect(got is not None, '%s: no region' % what)
    (x0, x1, y0, y1), f = got
    same(tuple(int(v) for v in (x0, x1, y0, y1)), want[0], what)
    same(bool(f), want[1], what + ': whether it is a part')
    np.zeros((30, 30))[y0:y1, x0:x1]        # usable as slices


def case_size(wn, H, W, S):
    from tractor.imageutils import interpret_roi
    w = wcs(wn)
    for fx in np.arange(-9.3, W + 9., 1.7):
        for fy in np.arange(-8.6, H + 9., 2.3):
            p = w.pixelToPosition(fx, fy)
            gx, gy = w.positionToPixel(p)
            if min(abs(gx % 1 - .5), abs(gy % 1 - .5)) < 1e-3:
                continue
            xc, yc = int(np.floor(gx + .5)), int(np.floor(gy + .5))
            box = (clip(xc - S, W), clip(xc + S + 1, W), clip(yc - S, H), clip(yc + S + 1, H))
            for args in (dict(), dict(roi=[1, 2, 3, 4])):
                check(interpret_roi(w, (H, W), roiradecsize=(p.ra, p.dec, S), **args), answer(box, H, W), 'region around (%.1f,%.1f)' % (fx, fy))


def case_box(wn, H, W, swap):
    from tractor.imageutils import interpret_roi
    w = wcs(wn)
    for fx in np.arange(-7.3, W + 7., 3.7):
        for fy in np.arange(-6.6, H + 6., 3.3):
            for dx, dy in ((2.2, 3.1), (0., 0.), (9., -4.), (40., 40.)):
                p, q = w.pixelToPosition(fx, fy), w.pixelToPosition(fx + dx, fy + dy)
                r0, r1 = sorted([p.ra, q.ra])
                d0, d1 = sorted([p.dec, q.dec])
                xy = np.array([w.positionToPixel(type(p)(r, d)) for r in (r0, r1) for d in (d0, d1)])
                if np.abs(xy % 1 - .5).min() < 1e-3:
                    continue
                i = np.floor(xy + .5).astype(int)
                box = (clip(i[:, 0].min(), W), clip(i[:, 0].max() + 1, W), clip(i[:, 1].min(), H), clip(i[:, 1].max() + 1, H))
                b = (r1, r0, d1, d0) if swap else (r0, r1, d0, d1)
                got = interpret_roi(w, (H, W), roiradecbox=b)
                check(got, answer(box, H, W), 'region of a box')


def case_roi(H, W):
    from tractor.imageutils import interpret_roi
    w = wcs('tan')
    check(interpret_roi(w, (H, W)), ((0, W, 0, H), False), 'whole image')
    for x0, x1, y0, y1 in rects(H, W):
        r = (x0 + 1, x1 + 1, y0 + 1, y1 + 1)
        for rr in (r, list(r), np.array(r)):
            check(interpret_roi(w, (H, W), roi=rr, junk=3), (r, r != (0, W, 0, H)), 'given region')


def run(ck):
    big = ck.thorough
    CASES = dict(integral=case_integral, symmetric=case_symmetric, size=case_size, box=case_box, roi=case_roi)

    def doit(sub, it):
        kind, a = it
        sub.step(1)
        sub.case('%s %s' % (kind, ' '.join(str(x) for x in a)), CASES[kind], *a)

    def go(items):
        n = max(1, min(20, len(items) // 16))
        ck.shards([items[i:i + n] for i in range(0, len(items), n)], lambda sub, its: [doit(sub, it) for it in its])
    m = 7 if big else 5
    it = [('integral', (H, W, s, k)) for H in range(1, m + 1) for W in range(1, m + 1) for s in (1, 2) for k in ('float', 'float32', 'int')]
    it += [('symmetric', (n, s, k, e)) for n in range(1, 5 if big else 4) for s in (1, 2, 3) for k in ('float', 'float32', 'int') for e in (0, 1) if e <= n]
    ck.section('box sums', 'every rectangle of images up to %dx%d and of mirror-symmetric images up to %d pixels, one by one and together' % (m, m, 2 * (4 if big else 3) + 1))
    go(it)
    it = [('size', (w, H, W, S)) for w in ('tan', 'flip', 'shifted') for H, W in ((14, 20), (9, 11), (1, 6)) for S in (0, 1, 2, 5, 30)]
    it += [('box', (w, H, W, sw)) for w in ('tan', 'flip', 'shifted') for H, W in ((14, 20), (9, 11), (1, 6)) for sw in (0, 1)]
    it += [('roi', (H, W)) for H in range(1, 6) for W in range(1, 6)]
    ck.section('regions', '%d: three WCS x image sizes x centres and boxes over and beyond the image x half-sizes; all explicit regions of small images' % len(it))
    go(it)
    ck.assumptions.append('centres and corners within 1e-3 of a half-integer pixel are skipped')
