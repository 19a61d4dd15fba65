"""
P05: patch algebra.  The reference model of a patch is a sparse map
{(x, y): value} (zero elsewhere).  Every placement / size / zero pattern within
the stated bounds is enumerated for every operation, every pair of placements
for the binary ones, and every operation history up to a depth for chains.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, same


def vals(w, h, seed=0):
    """Distinct non-zero values, both signs."""
    a = np.arange(1, w * h + 1, dtype=float).reshape(h, w) * 1.25 + seed
    a[::2, 1::2] *= -1.
    return a


def to_map(p):
    if p is None or p.patch is None:
        return {}
    a = np.asarray(p.patch)
    expect(a.ndim == 2, 'patch image has %d dimensions', a.ndim)
    out = {}
    for (j, i), v in np.ndenumerate(a):
        if v != 0:
            out[(p.x0 + i, p.y0 + j)] = float(v)
    return out


def eqmap(got, exp, what):
    if got == exp:
        return
    for k in sorted(set(got) | set(exp)):
        a, b = got.get(k, 0.), exp.get(k, 0.)
        if abs(a - b) > 1e-5 * max(1., abs(b)):
            fail('%s: pixel (x,y)=%s is %r, expected %r', what, k, a, b)


def madd(a, b, s=1.):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0.) + s * v
        if out[k] == 0:
            del out[k]
    return out


def mclip(m, x0, x1, y0, y1):
    return {k: v for k, v in m.items() if x0 <= k[0] < x1 and y0 <= k[1] < y1}


def img_map(a):
    return {(i, j): float(v) for (j, i), v in np.ndenumerate(a) if v != 0}


def unary(ck, x0, y0, w, h, arr, tag, imgs, rois):
    from tractor.patch import Patch
    def mk():
        return Patch(x0, y0, arr.copy())
    m0 = to_map(mk())
    n = 0
    p = mk()
    # accessors
    same(tuple(p.shape), (h, w), 'shape')
    same(tuple(p.getExtent()), (x0, x0 + w, y0, y0 + h), 'extent')
    same(tuple(p.extent), (x0, x0 + w, y0, y0 + h), 'extent property')
    same(tuple(p.getExtent(margin=2)), (x0 - 2, x0 + w + 2, y0 - 2, y0 + h + 2), 'extent with margin')
    same((p.x1, p.y1), (x0 + w, y0 + h), 'x1,y1')
    same((p.getX0(), p.getY0(), tuple(p.getOrigin())), (x0, y0, (x0, y0)), 'origin')
    same(p.size, w * h, 'size')
    sl = p.getSlice()
    same((sl[0].start, sl[0].stop, sl[1].start, sl[1].stop), (y0, y0 + h, x0, x0 + w), 'getSlice without a parent')
    q = Patch(99, -99, np.ones((5, 1)))
    p.setName('abc')
    q.set(p)
    eqmap(to_map(q), m0, 'set')
    same((tuple(q.getExtent()), q.getName()), (tuple(p.getExtent()), 'abc'), 'extent and name after set')
    # copy is independent
    c = p.copy()
    eqmap(to_map(c), m0, 'copy')
    c *= 2.
    c.clipTo(1, 1)
    eqmap(to_map(p), m0, 'original after changing the copy')
    # scaling
    eqmap(to_map(p * 2.5), {k: v * 2.5 for k, v in m0.items()}, '* 2.5')
    eqmap(to_map(p / 2.), {k: v / 2. for k, v in m0.items()}, '/ 2')
    eqmap(to_map(p), m0, 'operand after scaling')
    q = mk()
    q *= -3.
    eqmap(to_map(q), {k: v * -3. for k, v in m0.items()}, '*= -3')
    q = mk()
    q /= 4.
    eqmap(to_map(q), {k: v / 4. for k, v in m0.items()}, '/= 4')
    nz = p.getNonZeroMask()
    same(set(to_map(nz)), set(m0), 'non-zero mask')
    # trim
    q = mk()
    q.trimToNonZero()
    eqmap(to_map(q), m0, 'trimmed')
    if m0 and q.patch is not None:
        xs = [k[0] for k in m0]
        ys = [k[1] for k in m0]
        same(tuple(q.getExtent()), (min(xs), max(xs) + 1, min(ys), max(ys) + 1), 'extent after trimming')
    n += 10
    for (H, W) in imgs:
        q = mk()
        r = q.clipTo(W, H)
        e = mclip(m0, 0, W, 0, H)
        eqmap(to_map(q), e, 'clipTo(W=%d,H=%d)' % (W, H))
        over = x0 < W and x0 + w > 0 and y0 < H and y0 + h > 0
        same(bool(r), over, 'return value of clipTo(W=%d,H=%d)' % (W, H))
        if over:
            same(tuple(q.getExtent()), (max(0, x0), min(W, x0 + w), max(0, y0), min(H, y0 + h)),
                 'extent after clipTo(W=%d,H=%d)' % (W, H))
            idx = q.getPixelIndices(np.zeros((H, W)))
            exp = [yy * W + xx for yy in range(max(0, y0), min(H, y0 + h))
                   for xx in range(max(0, x0), min(W, x0 + w))]
            same(list(idx), exp, 'getPixelIndices in %dx%d' % (W, H))
        else:
            expect(q.patch is None or np.asarray(q.patch).size == 0, 'clipTo(W=%d,H=%d) kept pixels', W, H)
        # addTo
        base = np.ones((H, W)) * 7.
        p = mk()
        p.addTo(base)
        eqmap(img_map(base - 7.), e, 'addTo %dx%d image' % (W, H))
        base = np.zeros((H, W))
        p.addTo(base, scale=-2.)
        eqmap(img_map(base), {k: -2. * v for k, v in e.items()}, 'addTo(scale=-2) %dx%d image' % (W, H))
        eqmap(to_map(p), m0, 'patch after addTo')
        # slices
        im = np.arange(H * W).reshape(H, W) + 1.
        sp, si = p.getSlices((H, W))
        a, b = p.patch[sp], im[si]
        same(a.shape, b.shape, 'getSlices shapes in %dx%d' % (W, H))
        got = {}
        for (j, i), v in np.ndenumerate(b):
            Y, X = divmod(int(v) - 1, W)
            if a[j, i] != 0:
                got[(X, Y)] = float(a[j, i])
        eqmap(got, e, 'getSlices in %dx%d' % (W, H))
        got = set(int(v) for v in np.ravel(im[p.getSlice(im)]))
        exp = set(yy * W + xx + 1 for yy in range(max(0, y0), min(H, y0 + h))
                  for xx in range(max(0, x0), min(W, x0 + w)))
        same(got, exp, 'getSlice(parent) in %dx%d' % (W, H))
        n += 6
    for (rx0, rx1, ry0, ry1) in rois:
        q = mk()
        r = q.clipToRoi(rx0, rx1, ry0, ry1)
        over = x0 < rx1 and x0 + w > rx0 and y0 < ry1 and y0 + h > ry0
        same(bool(r), over, 'return value of clipToRoi(%s)' % ((rx0, rx1, ry0, ry1),))
        eqmap(to_map(q), mclip(m0, rx0, rx1, ry0, ry1), 'clipToRoi(%s)' % ((rx0, rx1, ry0, ry1),))
        if over:
            same(tuple(q.getExtent()), (max(rx0, x0), min(rx1, x0 + w), max(ry0, y0), min(ry1, y0 + h)),
                 'extent after clipToRoi(%s)' % ((rx0, rx1, ry0, ry1),))
        same(bool(mk().overlapsBbox((rx0, rx1, ry0, ry1))), over, 'overlapsBbox')
        n += 3
    ck.step(n)


def zero_patterns(w, h):
    base = vals(w, h)
    for bits in range(1 << (w * h)):
        a = base.copy().ravel()
        for k in range(w * h):
            if bits >> k & 1:
                a[k] = 0.
        yield bits, a.reshape(h, w)


def binary(ck, a, b, dtypes=(float, float)):
    from tractor.patch import Patch, add_patches
    (ax, ay, aw, ah), (bx, by, bw, bh) = a, b
    def mka():
        return Patch(ax, ay, vals(aw, ah).astype(dtypes[0]) if aw else None)
    def mkb():
        return Patch(bx, by, vals(bw, bh, 0.5).astype(dtypes[1]) if bw else None)
    A, B = mka(), mkb()
    ma, mb = to_map(A), to_map(B)
    eqmap(to_map(A + B), madd(ma, mb), 'a+b')
    eqmap(to_map(A - B), madd(ma, mb, -1.), 'a-b')
    eqmap(to_map(B - A), madd(mb, ma, -1.), 'b-a')
    if dtypes == (float, float) and aw and bw:
        # double precision is kept
        D1, D2 = Patch(ax, ay, A.patch / 3.), Patch(bx, by, B.patch / 7.)
        d1, d2 = to_map(D1), to_map(D2)
        for got, want in ((D1 + D2, madd(d1, d2)), (D1 - D2, madd(d1, d2, -1.))):
            got = to_map(got)
            for k in set(got) | set(want):
                expect(abs(got.get(k, 0.) - want.get(k, 0.)) <= 1e-12, 'pixel %s is %r, expected %r', k, got.get(k, 0.), want.get(k, 0.))
    eqmap(to_map(A), ma, 'left operand after arithmetic')
    eqmap(to_map(B), mb, 'right operand after arithmetic')
    if aw and bw:
        ux = (min(ax, bx), max(ax + aw, bx + bw), min(ay, by), max(ay + ah, by + bh))
        S = A + B
        e = S.getExtent()
        expect(e[0] >= ux[0] and e[1] <= ux[1] and e[2] >= ux[2] and e[3] <= ux[3],
               'extent of the sum %s exceeds the union %s', e, ux)
        over = ax < bx + bw and bx < ax + aw and ay < by + bh and by < ay + ah
        same(bool(A.hasBboxOverlapWith(B)), over, 'hasBboxOverlapWith')
        pa = Patch(ax, ay, np.abs(A.patch))
        pb = Patch(bx, by, np.abs(B.patch))
        same(bool(pa.hasNonzeroOverlapWith(pb)), over, 'hasNonzeroOverlapWith')
        pa.patch[0, 0] = 0.
        ov = bool(set(to_map(pa)) & set(to_map(pb)))
        same(bool(pa.hasNonzeroOverlapWith(pb)), ov, 'hasNonzeroOverlapWith (one zero pixel)')
        for k in range(4):
            # faint values, interleaved zeros
            pa = Patch(ax, ay, np.abs(A.patch) * 1e-3)
            pb = Patch(bx, by, np.abs(B.patch) * 1e-3)
            pa.patch[:, (k + 1) % 2::2] = 0.
            (pb.patch if k < 2 else pb.patch.T)[:, k % 2::2] = 0.
            ov = bool(set(to_map(pa)) & set(to_map(pb)))
            same(bool(pa.hasNonzeroOverlapWith(pb)), ov, 'hasNonzeroOverlapWith (zero columns, %d)' % k)
            same(bool(pb.hasNonzeroOverlapWith(pa)), ov, 'hasNonzeroOverlapWith (zero columns, %d, swapped)' % k)
    eqmap(to_map(add_patches(mka(), mkb())), madd(ma, mb), 'add_patches')
    eqmap(to_map(add_patches(None, mkb())), mb, 'add_patches(None, b)')
    eqmap(to_map(add_patches(mka(), None)), ma, 'add_patches(a, None)')
    same(add_patches(None, None), None, 'add_patches(None, None)')
    ck.step(9)


def empty(ck, x0, y0):
    """A patch without an image is zero everywhere."""
    from tractor.patch import Patch
    def mk():
        return Patch(x0, y0, None)
    im = np.arange(12.).reshape(3, 4)
    keep = im.copy()
    same(tuple(mk().shape), (0, 0), 'shape')
    same(tuple(mk().getExtent()), (x0, x0, y0, y0), 'extent')
    for what, f in (('* 2', lambda p: p * 2.), ('/ 2', lambda p: p / 2.), ('copy', lambda p: p.copy()),
                    ('*=', lambda p: p.__imul__(3.)), ('/=', lambda p: p.__itruediv__(3.))):
        q = f(mk())
        same((q.x0, q.y0, to_map(q)), (x0, y0, {}), what)
    mk().addTo(im)
    mk().addTo(im, scale=2.)
    expect(np.array_equal(im, keep), 'adding an empty patch changed the image')
    same(list(mk().getPixelIndices(im)), [], 'pixel indices')
    same(bool(mk().clipTo(4, 3)), False, 'clipTo')
    same(bool(mk().clipToRoi(-9, 9, -9, 9)), False, 'clipToRoi')
    same(im[mk().getSlice(im)].size, 0, 'getSlice')
    q = mk()
    q.trimToNonZero()
    same(to_map(q), {}, 'trimmed')
    ck.step(12)


OPS = []


def chain_ops():
    from tractor.patch import Patch
    def addop(x0, y0, w, h, sgn):
        def f(p, m):
            o = Patch(x0, y0, vals(w, h, 0.25))
            mo = to_map(o)
            r = (p + o) if sgn > 0 else (p - o)
            eqmap(to_map(o), mo, 'operand')
            return r, madd(m, mo, sgn)
        return f
    def clip(W, H):
        def f(p, m):
            p.clipTo(W, H)
            return p, mclip(m, 0, W, 0, H)
        return f
    def roi(*r):
        def f(p, m):
            p.clipToRoi(*r)
            return p, mclip(m, *r)
        return f
    def trim(p, m):
        p.trimToNonZero()
        return p, m
    def mul(f_):
        def f(p, m):
            return p * f_, {k: v * f_ for k, v in m.items() if v * f_ != 0}
        return f
    def imul(f_):
        def f(p, m):
            p *= f_
            return p, {k: v * f_ for k, v in m.items() if v * f_ != 0}
        return f
    def cp(p, m):
        return p.copy(), m
    return [('+overlap', addop(1, 0, 2, 2, 1)), ('-far', addop(-3, 4, 1, 2, -1)), ('-self-like', addop(-1, -1, 3, 2, -1)),
            ('clip 3x2', clip(3, 2)), ('clip 1x5', clip(1, 5)), ('roi', roi(-1, 2, 0, 4)), ('roi2', roi(1, 3, -2, 1)),
            ('trim', trim), ('*2', mul(2.)), ('*=0', imul(0.)), ('*=-1', imul(-1.)), ('copy', cp)]


def run(ck):
    from tractor.patch import Patch, ModelMask
    T = ck.thorough
    lo, hi, mx = (-5, 6, 4) if T else (-4, 4, 3)
    imgs = [(H, W) for H in range(1, 5) for W in range(1, 5)] if T else [(H, W) for H in (1, 2, 4) for W in (1, 3, 4)]
    rois = [(a, b, c, d) for a, b in [(-1, 1), (0, 3), (1, 2)] for c, d in [(-2, 1), (0, 2), (2, 4)]]

    def sh_unary(sub, x0):
        sub.section('placements', 'x0,y0 in [%d,%d), sizes 1..%d, %d image sizes, %d regions' % (
            lo, hi, mx, len(imgs), len(rois)))
        for y0 in range(lo, hi):
            for w in range(1, mx + 1):
                for h in range(1, mx + 1):
                    sub.case([x0, y0, w, h], unary, sub, x0, y0, w, h, vals(w, h), '', imgs, rois)
    ck.shards(range(lo, hi), sh_unary)

    def sh_zero(sub, wh):
        w, h = wh
        sub.section('zero patterns', 'all zero/non-zero patterns of sizes up to 3x3 (2x3 quick)')
        for bits, a in zero_patterns(w, h):
            sub.case([w, h, bits], unary, sub, -1, 1, w, h, a, '', [(2, 2), (4, 3)], rois[:3])
    sizes = [(w, h) for w in range(1, 4) for h in range(1, 4) if w * h <= (9 if T else 6)]
    ck.shards(sizes, sh_zero)

    shapes = [(w, h) for w in range(1, 4) for h in range(1, 4)] + [(0, 0)]
    offs = range(-4, 5) if T else range(-3, 4)

    def sh_bin(sub, s1):
        sub.section('pairs', 'all pairs of sizes (incl. no image) 1..3, all relative offsets |d|<=%d, 2 origins, mixed dtypes'
                    % max(offs))
        for s2 in shapes:
            for dx in offs:
                for dy in offs:
                    for ox, oy in ((0, 0), (-2, 5)):
                        for dt in (((float, float), (np.float32, float), (np.float32, np.float32)) if T else
                                   (((float, float),) if ox else ((np.float32, float),))):
                            sub.case([s1, s2, dx, dy, ox, oy, str(dt)], binary, sub,
                                     (ox, oy) + s1, (ox + dx, oy + dy) + s2, dt)
    ck.shards(shapes, sh_bin)

    depth = 5 if T else 4
    ops = chain_ops()

    def sh_chain(sub, first):
        sub.section('histories', 'all operation sequences of length %d over %d operations' % (depth, len(ops)))

        def go(hist, p, m, d):
            if d == 0:
                return
            for name, f in ops:
                q = Patch(p.x0, p.y0, None if p.patch is None else np.array(p.patch))
                def one():
                    r, mm = f(q, dict(m))
                    eqmap(to_map(r), mm, 'after ' + ' ; '.join(hist + [name]))
                    sub.step()
                    sub.state((r.x0, r.y0, tuple(r.shape), tuple(sorted(mm.items()))))
                    return (r, mm)
                if len(hist) < 2:
                    res = sub.case(hist + [name], one)
                else:
                    # innermost histories are not listed one by one, to keep the bookkeeping small
                    sub.traces += 1
                    try:
                        res = one()
                    except Exception:
                        res = sub.case(hist + [name], one)
                if res:
                    go(hist + [name], res[0], res[1], d - 1)
        p = Patch(-1, -1, vals(3, 2))
        name, f = ops[first]
        r, mm = f(p, to_map(p))
        go([name], r, mm, depth - 1)
    ck.shards(range(len(ops)), sh_chain)

    ck.section('empty', 'patches without an image, 25 placements')
    for x0, y0 in itertools.product((-3, -1, 0, 2, 7), repeat=2):
        ck.case([x0, y0], empty, ck, x0, y0)
    ck.section('masks', 'model mask geometry, all origins/sizes')
    for x0, y0, w, h in itertools.product((-2, 0, 3), (-1, 0, 2), (1, 2, 4), (1, 3)):
        def one():
            for mk in (ModelMask(x0, y0, w, h), ModelMask(x0, y0, np.ones((h, w), bool)),
                       ModelMask.fromExtent(x0, x0 + w, y0, y0 + h)):
                same((mk.x0, mk.y0, mk.x1, mk.y1, mk.w, mk.h), (x0, y0, x0 + w, y0 + h, w, h), 'mask geometry')
                same(tuple(mk.shape), (h, w), 'mask shape')
                expect(mk.mask is None or (mk.mask.shape == (h, w) and np.all(mk.mask)), 'mask image')
                same(tuple(mk.extent), (x0, x0 + w, y0, y0 + h), 'mask extent')
                ck.step()
        ck.case([x0, y0, w, h], one)
    ck.assumptions.append('patch values are a fixed non-zero texture or every zero/non-zero pattern of it; images up to 4x4')
