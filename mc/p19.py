"""
P19: astrometric calibration.  Every WCS class agrees with a float64 gnomonic
reference at every point of a grid of fields and pixels, its inverse inverts it,
its CD matrix is its local derivative, and every history of shifts, copies and
parameter edits moves pixel coordinates by exactly the accumulated amount.
"""
import math
import itertools
import numpy as np
from mc.core import expect, fail, close, same


class Tref(object):
    """FITS TAN projection"""

    def __init__(self, crval, crpix, cd, off=(0., 0.)):
        self.v = list(crval) + list(crpix) + list(cd)
        self.off = tuple(off)

    def copy(self):
        return Tref(self.v[:2], self.v[2:4], self.v[4:8], self.off)

    def cd(self):
        return np.array(self.v[4:8]).reshape(2, 2)

    def pix2sky(self, x, y):
        u = np.array([x + 1. + self.off[0] - self.v[2], y + 1. + self.off[1] - self.v[3]])
        xi, eta = np.radians(np.dot(self.cd(), u))
        a0, d0 = np.radians(self.v[0]), np.radians(self.v[1])
        den = math.cos(d0) - eta * math.sin(d0)
        ra = a0 + math.atan2(xi, den)
        dec = math.atan2((math.sin(d0) + eta * math.cos(d0)), math.hypot(xi, den))
        return math.degrees(ra) % 360., math.degrees(dec)

    def sky2pix(self, ra, dec):
        a, d, a0, d0 = np.radians([ra, dec, self.v[0], self.v[1]])
        den = math.sin(d) * math.sin(d0) + math.cos(d) * math.cos(d0) * math.cos(a - a0)
        xi = math.cos(d) * math.sin(a - a0) / den
        eta = (math.sin(d) * math.cos(d0) - math.cos(d) * math.sin(d0) * math.cos(a - a0)) / den
        u = np.linalg.solve(self.cd(), np.degrees([xi, eta]))
        return u[0] + self.v[2] - 1. - self.off[0], u[1] + self.v[3] - 1. - self.off[1]

    def localcd(self, x, y):
        h = .5
        ra0, dec0 = self.pix2sky(x, y)
        M = np.zeros((2, 2))
        for j, (dx, dy) in enumerate([(h, 0), (0, h)]):
            r1, d1 = self.pix2sky(x + dx, y + dy)
            r0, d0 = self.pix2sky(x - dx, y - dy)
            dr = (r1 - r0 + 180.) % 360. - 180.
            M[:, j] = dr * math.cos(math.radians(dec0)) / (2 * h), (d1 - d0) / (2 * h)
        return M


def mkcd(scale, rot, parity, skew=0.):
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    k = scale / 3600.
    return [-k * c * parity, k * s, k * s * parity, k * c * (1. + skew)]


def tanobj(t, w=40, h=36):
    from astrometry.util.util import Tan
    return Tan(*([float(x) for x in t.v] + [float(w), float(h)]))


def wcslib(t):
    from tractor.wcs import WcslibWcs
    from astrometry.util.util import anwcs_new_tan
    return WcslibWcs(None, wcs=anwcs_new_tan(tanobj(t)))


KINDS = ['TanWcs', 'ConstantFitsWcs', 'Sip', 'WcslibWcs', 'ShiftedWcs', 'ShiftedWcslib', 'shifted', 'fracshift', 'duck2', 'Wrapper']


def build(kind, t):
    """(wcs, reference) -- the reference includes the pixel offset"""
    from tractor.wcs import TanWcs, ConstantFitsWcs
    from tractor.shifted import ShiftedWcs
    r = t.copy()
    if kind == 'TanWcs':
        return TanWcs(tanobj(t)), r
    if kind == 'ConstantFitsWcs':
        return ConstantFitsWcs(tanobj(t)), r
    if kind == 'Sip':
        from astrometry.util.util import Sip
        return ConstantFitsWcs(Sip(tanobj(t))), r
    if kind == 'WcslibWcs':
        return wcslib(t), r
    if kind == 'duck2':
        return ConstantFitsWcs(Duck2(t)), r
    r.off = (5., -3.)
    if kind == 'fracshift':
        return TanWcs(tanobj(t)).shifted(1.5, -.75).shifted(3.5, -2.25), r
    if kind == 'ShiftedWcs':
        return ShiftedWcs(TanWcs(tanobj(t)), 5, -3), r
    if kind == 'ShiftedWcslib':
        return ShiftedWcs(wcslib(t), 5, -3), r
    if kind == 'shifted':
        return TanWcs(tanobj(t)).shifted(2, -7).shifted(3, 4), r


class Duck2(object):
    """a WCS whose radec2pixelxy returns just x, y (as documented by ConstantFitsWcs)"""
    def __init__(self, t):
        self.w = tanobj(t)

    def radec2pixelxy(self, r, d):
        return self.w.radec2pixelxy(r, d)[-2:]

    def __getattr__(self, n):
        if n.startswith('__') or n == 'w':
            raise AttributeError(n)
        return getattr(self.w, n)


PIX = [(0., 0.), (19.5, 17.5), (3.25, 30.), (-4., 12.), (45., 50.)]


def skyeq(got, want, tol, what):
    d = (got[0] - want[0] + 180.) % 360. - 180.
    d *= math.cos(math.radians(want[1]))
    if not (abs(d) < tol and abs(got[1] - want[1]) < tol):
        fail('%s: RA,Dec %r, expected %r' % (what, tuple(got), tuple(want)))


def project(kind, t):
    import tractor as T
    w, ref = build(kind, t)
    scale = math.sqrt(abs(np.linalg.det(ref.cd())))
    for x, y in PIX:
        ra, dec = ref.pix2sky(x, y)
        pos = T.RaDecPos(ra, dec)
        gx, gy = w.positionToPixel(pos)
        wx, wy = ref.sky2pix(ra, dec)
        close(wx, x, 0, 1e-4, 'harness: reference inverts')
        close(gx, wx, 0, 1e-4, '%s.positionToPixel x at %g,%g' % (kind, x, y))
        close(gy, wy, 0, 1e-4, '%s.positionToPixel y at %g,%g' % (kind, x, y))
        p = w.pixelToPosition(x, y)
        skyeq((p.ra, p.dec), (ra, dec), scale * 1e-4, '%s.pixelToPosition(%g, %g)' % (kind, x, y))
        expect(isinstance(p, T.RaDecPos), 'pixelToPosition returns a ' + type(p).__name__)
        bx, by = w.positionToPixel(p)
        close(bx, x, 0, 1e-4, '%s round trip x' % kind)
        close(by, y, 0, 1e-4, '%s round trip y' % kind)
        cds(kind, w, ref, x, y, pos)


def cds(kind, w, ref, x, y, pos):
    cd = np.array(w.cdAtPixel(x, y))
    want = ref.localcd(x, y)
    sc = math.sqrt(abs(np.linalg.det(want)))
    expect(cd.shape == (2, 2), 'cdAtPixel shape')
    expect(np.max(np.abs(cd - want)) < 5e-3 * sc, '%s.cdAtPixel(%g,%g) = %s, local derivative is %s' % (kind, x, y, cd.tolist(), want.tolist()))
    if 'lib' not in kind:
        expect(np.max(np.abs(cd - ref.cd())) < 1e-9 * sc, '%s.cdAtPixel is not the CD matrix' % kind)
    I = np.dot(np.array(w.cdInverseAtPixel(x, y)), cd)
    expect(np.max(np.abs(I - np.eye(2))) < 1e-6, '%s.cdInverseAtPixel does not invert cdAtPixel: %s' % (kind, I.tolist()))
    I = np.dot(np.array(w.cdInverseAtPosition(pos)), cd)
    expect(np.max(np.abs(I - np.eye(2))) < 1e-4, '%s.cdInverseAtPosition does not invert cdAtPixel: %s' % (kind, I.tolist()))
    close(w.pixscale_at(x, y), 3600. * sc, 5e-3, 0, kind + '.pixscale_at')
    if hasattr(w, 'pixel_scale'):
        close(w.pixel_scale(), 3600. * sc, 5e-3, 0, kind + '.pixel_scale')


def wrapper(t, off, ox, oy):
    """TractorWCSWrapper: FITS pixel convention, offsets, scalars and arrays"""
    from tractor.basics import TractorWCSWrapper
    from tractor.wcs import TanWcs
    ref = t.copy()
    base = TanWcs(tanobj(t))
    if off:
        base = base.shifted(2, 3)
        ref.off = (2., 3.)
    w = TractorWCSWrapper(base, 40, 36, x0=ox, y0=oy)
    expect(w.imagew == 40 and w.imageh == 36, 'size')
    sky = [ref.pix2sky(x, y) for x, y in PIX]
    for (x, y), (ra, dec) in zip(PIX, sky):
        fx, fy = x + 1. - ox, y + 1. - oy
        skyeq(w.pixelxy2radec(fx, fy), (ra, dec), 1e-8, 'wrapper.pixelxy2radec')
        ok, gx, gy = w.radec2pixelxy(ra, dec)
        expect(ok is True or ok == True, 'ok')
        close(gx, fx, 0, 1e-4, 'wrapper.radec2pixelxy x')
        close(gy, fy, 0, 1e-4, 'wrapper.radec2pixelxy y')
    for n in (1, 3, 5):
        A = np.array(sky[:n])
        ok, gx, gy = w.radec2pixelxy(A[:, 0], A[:, 1])
        expect(np.all(ok), 'ok')
        for i in range(n):
            close(gx[i], PIX[i][0] + 1. - ox, 0, 1e-4, 'wrapper.radec2pixelxy(arrays) x[%d]' % i)
            close(gy[i], PIX[i][1] + 1. - oy, 0, 1e-4, 'wrapper.radec2pixelxy(arrays) y[%d]' % i)


def nullwcs(dx, dy, ps):
    import tractor as T
    w = T.NullWCS(pixscale=ps, dx=dx, dy=dy)
    ox = oy = 0.
    for step in range(3):
        for x, y in PIX:
            gx, gy = w.positionToPixel(T.PixPos(x, y))
            close(gx, x + dx - ox, 0, 1e-9, 'x')
            close(gy, y + dy - oy, 0, 1e-9, 'y')
            p = w.pixelToPosition(gx, gy)
            px, py = (p.x, p.y) if hasattr(p, 'x') else p
            close(px, x, 0, 1e-9, 'pixelToPosition x')
            close(py, y, 0, 1e-9, 'pixelToPosition y')
            close(w.pixscale_at(x, y), ps, 1e-9, 0, 'pixscale_at')
            cd = np.array(w.cdAtPixel(x, y))
            expect(np.allclose(cd, np.eye(2) * ps / 3600., rtol=1e-9), 'cd %s' % cd)
            expect(np.allclose(np.dot(cd, w.cdInverseAtPixel(x, y)), np.eye(2)), 'cd inverse')
            expect(np.allclose(np.dot(cd, w.cdInverseAtPosition(T.PixPos(x, y))), np.eye(2)), 'cd inverse')
        w0 = w
        w = w.shifted(2, -5)
        gx, gy = w0.positionToPixel(T.PixPos(1., 1.))
        close(gx, 1. + dx - ox, 0, 1e-9, 'shifted() changed its argument')
        ox, oy = ox + 2., oy - 5.
    w.setPixscale(ps * 3.)
    expect(np.allclose(w.cdAtPixel(0, 0), np.eye(2) * ps / 1200.), 'cd after setPixscale')
    expect(np.allclose(np.dot(w.cdAtPixel(0, 0), w.cdInverseAtPixel(0, 0)), np.eye(2)), 'inverse after setPixscale')
    close(w.pixscale_at(0, 0), 3. * ps, 1e-9, 0, 'pixscale after setPixscale')


# ------------------------------------------------------------------ histories
NAMES = ['crval1', 'crval2', 'crpix1', 'crpix2', 'cd1_1', 'cd1_2', 'cd2_1', 'cd2_2']


def ops():
    """(name, fn(w, ref, original list)) -> (w, ref)"""
    k = 1. / 3600.
    o = []

    def setter(i, d):
        def f(w, r):
            r = r.copy()
            r.v[i] += d
            setattr(w, NAMES[i], r.v[i])
            return w, r
        return f
    deltas = [.3, -2., 4., -3., .2 * k, .1 * k, -.15 * k, .25 * k]
    for i, d in enumerate(deltas):
        o.append(('set ' + NAMES[i], setter(i, d)))

    def setparams(w, r):
        r = r.copy()
        v = list(w.getAllParams())
        for i, d in enumerate(deltas):
            v[i] += d
            r.v[i] += d
        # (the pixel offsets come last)
        v[8] += 1.5
        v[9] -= 2.
        r.off = (r.off[0] + 1.5, r.off[1] - 2.)
        w.setAllParams(v)
        return w, r

    def setparam(i):
        def f(w, r):
            names = w.getParamNames()
            if NAMES[i] not in names:
                return w, r
            r = r.copy()
            r.v[i] += deltas[i]
            old = w.setParam(names.index(NAMES[i]), r.v[i])
            close(old, r.v[i] - deltas[i], 1e-12, 1e-12, 'setParam() returned the old value')
            return w, r
        return f

    def setoff(k, d):
        def f(w, r):
            if w.numberOfParams() != 10:
                return w, r
            off = list(r.off)
            off[k] += d
            r = r.copy()
            old = w.setParam(8 + k, off[k])
            close(old, off[k] - d, 1e-12, 1e-12, 'setParam() returned the old offset')
            r.off = tuple(off)
            return w, r
        return f

    def shift(dx, dy):
        def f(w, r):
            s = w.shifted(dx, dy)
            r2 = r.copy()
            r2.off = (r.off[0] + dx, r.off[1] + dy)
            check(w, r, 'the WCS that was shifted')
            return s, r2
        return f

    def cp(w, r):
        c = w.copy()
        # editing the old one leaves the copy alone
        w.crval2 = w.crval2 + 1.
        w.cd1_1 = w.cd1_1 * 1.5
        w.setX0Y0(99, 98)
        return c, r

    def xy(w, r):
        r = r.copy()
        r.off = (7., 2.)
        w.setX0Y0(7, 2)
        return w, r

    def freeze(w, r):
        w.freezeParam('cd1_1') if 'cd1_1' in w.getParamNames() else w.thawAllParams()
        return w, r
    o += [('setAllParams', setparams), ('setParam crval1', setparam(0)), ('setParam cd2_2', setparam(7)), ('setParam crpix2', setparam(3)),
          ('setParam x0', setoff(0, 2.5)), ('setParam y0', setoff(1, -1.5)),
          ('shifted(3,-2)', shift(3, -2)), ('shifted(-1,5)', shift(-1, 5)), ('copy', cp), ('setX0Y0', xy), ('freeze/thaw', freeze)]
    return o


def check(w, ref, what):
    import tractor as T
    for x, y in PIX[1:4]:
        ra, dec = ref.pix2sky(x, y)
        gx, gy = w.positionToPixel(T.RaDecPos(ra, dec))
        close(gx, x, 0, 1e-4, what + ': positionToPixel x')
        close(gy, y, 0, 1e-4, what + ': positionToPixel y')
        p = w.pixelToPosition(x, y)
        skyeq((p.ra, p.dec), (ra, dec), 1e-8, what + ': pixelToPosition')
    cd = ref.cd()
    expect(np.allclose(w.cdAtPixel(1., 2.), cd, rtol=1e-9, atol=1e-12), what + ': cdAtPixel')
    expect(np.allclose(np.dot(w.cdInverseAtPixel(1., 2.), cd), np.eye(2), atol=1e-6), what + ': cdInverseAtPixel')
    ps = 3600. * math.sqrt(abs(np.linalg.det(cd)))
    close(w.pixscale_at(1., 2.), ps, 1e-6, 0, what + ': pixscale_at')
    close(w.pixel_scale(), ps, 1e-6, 0, what + ': pixel_scale')
    x0, y0 = w.getX0Y0()
    close(x0, ref.off[0], 0, 1e-9, what + ': x0')
    close(y0, ref.off[1], 0, 1e-9, what + ': y0')
    close(list(w.getAllParams()), list(ref.v) + list(ref.off), 1e-12, 1e-15, what + ': parameters')


def histories(ck, t, first, depth):
    from tractor.wcs import TanWcs
    O = ops()
    todo = [[first]]
    for d in range(depth - 1):
        todo += [p + [k] for p in todo if len(p) == d + 1 for k in range(len(O))]
    for path in todo:
        names = [O[k][0] for k in path]

        def one():
            w, r = TanWcs(tanobj(t)), t.copy()
            for k in path:
                w, r = O[k][1](w, r)
                ck.step(1)
            check(w, r, 'after ' + '; '.join(names))
            ck.state(tuple(np.round(r.v, 9)) + r.off)
        ck.case('history ' + '; '.join(names), one)


def shiftlists(kind, t, shifts, copies):
    """any list of shifts of any WCS that can be shifted is one shift by the sum"""
    import tractor as T
    w, ref = build(kind, t)
    x0, y0 = ref.off
    for dx, dy in shifts:
        w = w.shifted(dx, dy)
        expect(w is not None, '%s.shifted() returned nothing' % kind)
        x0, y0 = x0 + dx, y0 + dy
        if copies:
            c = w.copy()
            if hasattr(w, 'setX0Y0'):
                w.setX0Y0(77, -55)      # not seen by the copy
            w = c
    ref.off = (x0, y0)
    for x, y in PIX[:3]:
        ra, dec = ref.pix2sky(x, y)
        gx, gy = w.positionToPixel(T.RaDecPos(ra, dec))
        close(gx, x, 0, 1e-4, kind + ' x')
        close(gy, y, 0, 1e-4, kind + ' y')
        p = w.pixelToPosition(x, y)
        skyeq((p.ra, p.dec), (ra, dec), 1e-8, kind + ' pixelToPosition')
        cds(kind, w, ref, x, y, T.RaDecPos(ra, dec))


def views(shifts, x, y):
    """a (shifted) view of a WCS whose scale varies over the field"""
    import tractor as T
    from tractor.shifted import ShiftedWcs
    from tractor.wcs import NullWCS

    class Varying(NullWCS):
        def positionToPixel(self, pos, src=None):
            return pos.x**2 / 40., pos.y**2 / 90.

        def pixelToPosition(self, x, y, src=None):
            return T.PixPos(np.sqrt(40. * x), np.sqrt(90. * y))

        def cdAtPixel(self, x, y):
            return np.array([[1. + .01 * x, .003 * y], [-.002 * x, 1.5 + .02 * y]]) / 3600.
    b = Varying()
    v = None
    tx = ty = 0
    for dx, dy in shifts:
        v = ShiftedWcs(b, dx, dy) if v is None else v.shifted(dx, dy)
        tx, ty = tx + dx, ty + dy
    nest = b
    for dx, dy in shifts:
        nest = ShiftedWcs(nest, dx, dy)
    for w, what in ((v, 'view'), (nest, 'view of a view')):
        p = w.pixelToPosition(x, y)
        q = b.pixelToPosition(x + tx, y + ty)
        close([p.x, p.y], [q.x, q.y], 1e-9, 1e-9, what + ': pixelToPosition')
        close(list(w.positionToPixel(q)), [x, y], 1e-9, 1e-8, what + ': positionToPixel')
        close(np.array(w.cdAtPixel(x, y)), b.cdAtPixel(x + tx, y + ty), 1e-9, 0, what + ': cdAtPixel')
        close(np.array(w.cdInverseAtPixel(x, y)), np.linalg.inv(b.cdAtPixel(x + tx, y + ty)), 1e-9, 0, what + ': cdInverseAtPixel')


def distance(r1, d1, r2, d2):
    import tractor as T
    a, b = T.RaDecPos(r1, d1), T.RaDecPos(r2, d2)
    x = [np.array([math.cos(math.radians(d)) * math.cos(math.radians(r)), math.cos(math.radians(d)) * math.sin(math.radians(r)),
                   math.sin(math.radians(d))]) for r, d in ((r1, d1), (r2, d2))]
    want = math.degrees(2. * math.asin(min(1., .5 * np.linalg.norm(x[0] - x[1]))))
    got = np.asarray(a.distanceFrom(b)).ravel()
    expect(got.size == 1, 'distanceFrom returned %d numbers' % got.size)
    close(float(got[0]), want, 1e-6, 1e-6, 'distanceFrom')
    close(float(np.asarray(b.distanceFrom(a)).ravel()[0]), want, 1e-6, 1e-6, 'distanceFrom is symmetric')
    s = a + b
    close(list(s.getParams()), [r1 + r2, d1 + d2], 1e-12, 1e-12, 'sum')
    s = a * 3.
    close(list(s.getParams()), [3 * r1, 3 * d1], 1e-12, 1e-12, 'product')
    s = a - b
    close(list(s.getParams()), [r1 - r2, d1 - d2], 1e-12, 1e-12, 'difference')
    same(list(a.getParams()), [r1, d1], 'operand')
    ss = a.getStepSizes()
    expect(len(ss) == 2 and all(np.isfinite(ss)) and all(v != 0 for v in ss), 'steps %r' % ss)


def run(ck):
    th = ck.thorough
    fields = []
    crvals = [(150., 2.), (0.001, 20.), (359.9995, -35.), (10., 80.), (200., -75.)] + ([(45., 0.), (90., 60.), (180., -10.), (270., 88.)] if th else [])
    cdl = [mkcd(.4, 0., 1), mkcd(1., 35., 1), mkcd(.26, 100., -1, .05)] + ([mkcd(2., -60., 1, .1), mkcd(.05, 180., -1), mkcd(.7, 45., 1)] if th else [])
    crpix = [(20.5, 18.5), (3., -6.)]
    for v, c, p in itertools.product(crvals, cdl, crpix):
        fields.append(Tref(v, p, c))
    kinds = [k for k in KINDS if k != 'Wrapper']
    ck.section('projection', '%d fields x %d classes x %d pixels: forward, inverse, CD, scale' % (len(fields), len(kinds), len(PIX)))
    for i, t in enumerate(fields):
        for k in kinds:
            ck.case('project %s field %d %s' % (k, i, [round(x, 6) for x in t.v]), project, k, t)
    ck.section('wrapper', 'fields x base offset x wrapper offsets, scalars and arrays of 1, 3, 5')
    for i, t in enumerate(fields):
        for off, (ox, oy) in itertools.product([False, True], [(0, 0), (2, 3), (-4, 7)]):
            ck.case('wrapper field %d %s %d,%d' % (i, off, ox, oy), wrapper, t, off, ox, oy)
    ck.section('NullWCS', 'offsets x pixel scales x chains of shifts')
    for dx, dy, ps in itertools.product([0., .5, -3.], [0., -.25, 8.], [1., .262, 3.]):
        ck.case('null %g %g %g' % (dx, dy, ps), nullwcs, dx, dy, ps)
    n = len(ops())
    depth = 4 if th else 3
    hf = fields[2:3] + fields[9:10] if not th else fields[2:10:3]
    ck.section('histories', 'all sequences of <=%d of %d edits, shifts, copies, freezes of a TanWcs, %d fields' % (depth, n, len(hf)))

    def shard(sub, item):
        t, f = item
        histories(sub, t, f, depth)
    ck.shards([(t, f) for t in hf for f in range(n)], shard)
    ck.section('shift lists', 'all lists of <=3 shifts from 5 for every class')
    S = [(1, 0), (0, -2), (5, 7), (-3, 4), (.5, -1.25)]
    for k in kinds:
        for m in (1, 2, 3):
            for s in itertools.product(S, repeat=m):
                ck.case('shifts %s %s' % (k, s), shiftlists, k, fields[3], s, False)
                if 'Wcslib' not in k:        # (declares that it cannot be copied)
                    ck.case('shifts and copies %s %s' % (k, s), shiftlists, k, fields[3], s, True)
    ck.section('views', 'all lists of <=3 shifts from 4, as one shifted view and as nested views of a WCS with varying scale')
    for m in (1, 2, 3):
        for sh in itertools.product([(10, 0), (0, 20), (15, 7), (30, 40)], repeat=m):
            for x, y in [(3., 4.), (20., 11.)]:
                ck.case('view %s %g,%g' % (sh, x, y), views, sh, x, y)
    ck.section('positions', 'all pairs of 7 sky positions: distance, arithmetic')
    P = [(0., 0.), (359.9, .1), (10., 20.), (10., 20.001), (190., -20.), (300., 85.), (120., -89.)]
    for a, b in itertools.product(P, P):
        ck.case('pair %s %s' % (a, b), distance, a[0], a[1], b[0], b[1])
