"""
P31: SDSS frames become images.  Synthetic frames, masks and PSF fields (the
real astrometry.sdss readers' objects, filled in by hand) are turned into
images under every combination of options and regions; the reader is made to
fail at every call; the WCS is compared with the asTrans transformation and
with finite differences; bright stars and binned images with their definitions.
"""
import contextlib
import io
import itertools
import numpy as np
from mc.core import expect, fail, close, close_img, same, raises, texture

H, W = 40, 64
PLANES = ['INTERP', 'SATUR', 'CR', 'GHOST']


def astrans(kind='plain'):
    from astrometry.sdss import AsTrans

    class T(object):
        pass
    t = T()
    s = .396 / 3600
    node, incl = 95., 10.
    t.a, t.d = 100., .2
    rot = 0.
    g = h = (0., 0., 0., 0.)
    if kind == 'distorted':
        rot = .3
        g = (.4, 1e-3, -2e-6, 1e-9)
        h = (-.3, -2e-3, 1e-6, 2e-9)
    elif kind == 'wrap':
        t.a, t.d, node, incl, rot = 359.999, -.3, 275., 32.5, 2.
    elif kind == 'flip':
        t.a, t.d, node, incl = 200., 1.1, 95., -22.5
    t.b, t.c, t.e, t.f = s * np.cos(rot), s * np.sin(rot), -s * np.sin(rot), s * np.cos(rot)
    if kind == 'flip':
        t.b, t.e = -t.b, -t.e
    t.ricut = .5
    for i in range(4):
        setattr(t, 'drow%i' % i, g[i])
        setattr(t, 'dcol%i' % i, h[i])
    t.csrow, t.cscol, t.ccrow, t.cccol = .1, .2, .3, .4
    return AsTrans(1, 2, 3, 'r', node=np.deg2rad(node), incl=np.deg2rad(incl), astrans=t, cut_to_band=False)


def planes(masks):
    """rectangles (c0,c1,r0,r1), inclusive, of every mask plane"""
    if masks == 'none':
        return {}
    d = dict(INTERP=[(3, 6, 2, 4)], SATUR=[(10, 10, 0, 39), (50, 63, 30, 39)], CR=[(20, 22, 15, 16)], GHOST=[(0, 1, 20, 25)], NOTCHECKED=[(30, 40, 5, 12)])
    if masks == 'edge':
        d = dict(SATUR=[(0, 63, 0, 0)], CR=[(63, 63, 0, 39)], SUBTRACTED=[(0, 63, 0, 39)])
    return d


def stamp(bandnum, x, y):
    yy, xx = np.mgrid[-12:13, -12:13]
    s = 1.3 + .1 * bandnum + .006 * x + .004 * y
    g = .8 * np.exp(-.5 * (xx ** 2 + yy ** 2) / s ** 2) / s ** 2 + .2 * np.exp(-.5 * (xx ** 2 + yy ** 2) / (2 * s) ** 2) / (2 * s) ** 2
    g[np.maximum(np.abs(xx), np.abs(yy)) > 10] = 0
    # light on one side of the empty border only: what is trimmed stays symmetric
    if bandnum == 0:
        g[1 if int(x) % 2 else -2, 9] = 1e-3
    elif bandnum == 4:
        g[14, 0 if int(x) % 2 else -1] = 1e-3
    return g / g.sum()


def border(g):
    """rows and columns without light all around"""
    t = 0
    while not (np.any(g[t]) or np.any(g[-1 - t]) or np.any(g[:, t]) or np.any(g[:, -1 - t])):
        t += 1
    return t


class Faults(object):
    """raises at the k-th call; counts the calls"""

    def __init__(self, k=None, times=1):
        self.k, self.n, self.times = k, 0, times
        self.log = []

    def hit(self, name):
        self.log.append(name)
        self.n += 1
        if self.k is not None and self.k <= self.n < self.k + self.times:
            raise IOError('injected at call %i: %s' % (self.n, name))


def survey(kind='plain', masks='some', faults=None, release=8):
    from astrometry.sdss.common import PsField, FpM
    from astrometry.sdss.dr8 import Frame
    from astrometry.util.fits import tabledata
    F = faults or Faults()

    class Field(PsField):
        def __init__(self):
            super(Field, self).__init__(1, 2, 3)
            b = np.arange(5.)
            self.gain, self.dark_variance = 1. + b, 10. + b
            self.psp_status = [0] * 5
            self.dgpsf_s1, self.dgpsf_s2, self.dgpsf_b = 1. + .1 * b, 2. + .2 * b, .1 + .02 * b
            self.plpsf_s1, self.plpsf_s2, self.plpsf_b = 1.1 + .1 * b, 2.1 + .2 * b, .12 + .02 * b
            self.plpsf_p0, self.plpsf_sigmap, self.plpsf_beta = .01 + .001 * b, 3. + .1 * b, 3. + .1 * b

        def getPsfAtPoints(self, bandnum, x, y):
            return stamp(bandnum, x, y)

    class Mask(FpM):
        def getMaskPlane(self, name):
            r = planes(masks).get(name, [])
            if not len(r):
                return None
            T = tabledata()
            a = np.array(r)
            T.cmin, T.cmax, T.rmin, T.rmax = a.T.copy()
            T.col0 = T.row0 = np.zeros(len(r), int)
            return T

    class Survey(object):
        calls = F

        def __init__(self):
            f = Frame(1, 2, 3, 'r')
            f.image = (texture((H, W), 5) * .1).astype(np.float32)
            f.header = dict(TAI=4507681767.55, STRIPE=82, STRIP='N', OBJECT='82 N')
            f.astrans = astrans(kind)
            f.calib = np.linspace(.004, .006, W).astype(np.float32)
            f.sky = (100. + 20 * texture((12, 256), 9)).astype(np.float32)
            f.skyxi, f.skyyi = np.linspace(0, 255, W), np.linspace(0, 11, H)
            self.frame, self.field, self.mask = f, Field(), Mask()

        def getDRNumber(self):
            return release

        def retrieve(self, ft, run, camcol, field, band=None, skipExisting=True, **kw):
            F.hit('retrieve %s %s' % (ft, skipExisting))
            return '/nonexistent/%s' % ft

        def getPath(self, ft, *a, **kw):
            F.hit('path ' + ft)
            return '/nonexistent/%s' % ft

        def readFrame(self, run, camcol, field, band, filename=None):
            F.hit('frame')
            same((run, camcol, field), (1, 2, 3), 'field asked for')
            return self.frame

        def readPsField(self, run, camcol, field):
            F.hit('psfield')
            return self.field

        def readFpM(self, run, camcol, field, band):
            F.hit('fpm')
            return self.mask
    return Survey()


def read(S, o, **extra):
    from tractor.sdss import get_tractor_image_dr8, get_tractor_image_dr9
    kw = dict((k, v) for k, v in o.items() if k in ('psf', 'nanomaggies', 'invvarIgnoresSourceFlux', 'invvarAtCenter', 'invvarAtCenterImage', 'retrieve', 'zrange', 'roi', 'roiradecsize', 'roiradecbox'))
    kw.update(extra)
    f = get_tractor_image_dr9 if o.get('rel') == 9 else get_tractor_image_dr8
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(1, 2, 3, o.get('band', 'r'), sdss=S, **kw)


def bounds(o):
    if o.get('roi') is not None:
        return o['roi']
    return (0, W, 0, H)


def ref_iv(S, o):
    """inverse variance of the whole frame"""
    b = 'ugriz'.index(o.get('band', 'r'))
    f = S.frame
    xi = np.round(f.skyxi).astype(int)
    yi = np.round(f.skyyi).astype(int)
    sky = f.sky[np.minimum(yi, 11)][:, xi].astype(float)
    dn = sky if o.get('invvarIgnoresSourceFlux') else f.image / f.calib + sky
    return 1. / ((dn / S.field.gain[b] + S.field.dark_variance[b]) * f.calib ** 2)


def masked(masks, margin=0):
    m = np.zeros((H, W), bool)
    for p, rr in planes(masks).items():
        if p in PLANES:
            for c0, c1, r0, r1 in rr:
                m[r0:r1 + 1 + margin, c0:c1 + 1 + margin] = True
    return m


def check_image(S, tim, info, o, masks, kind):
    from tractor import RaDecPos, NanoMaggies, Mags
    b = 'ugriz'.index(o.get('band', 'r'))
    x0, x1, y0, y1 = bounds(o)
    sl = (slice(y0, y1), slice(x0, x1))
    same(tuple(int(i) for i in info['roi']), (x0, x1, y0, y1), 'region in the details')
    same(tim.shape, (y1 - y0, x1 - x0), 'shape')
    close(tim.getImage(), S.frame.image[sl], 0, 1e-7, 'pixels')
    iv = ref_iv(S, o)
    if o.get('invvarAtCenter') or o.get('invvarAtCenterImage'):
        c = (int((x0 + x1) / 2.), int((y0 + y1) / 2.))
        iv = np.zeros((H, W)) + iv[c[1], c[0]]
    want = iv.copy()
    if not o.get('invvarAtCenter') or o.get('invvarAtCenterImage'):
        # astrometry's FpM masks one row and column more than the rectangles
        # say when it is given a region: either is accepted
        got = np.array(tim.getInvvar())
        want[masked(masks)] = 0
        ring = (masked(masks, 1) & ~masked(masks))[sl] & (got == 0)
        same(np.shape(tim.getInvvar()), tim.shape, 'shape of the weights')
        close(np.where(ring, want[sl], got), want[sl], 1e-4, 0, 'inverse variance')
        same((got == 0).tolist(), (masked(masks)[sl] | ring).tolist(), 'masked pixels')
    else:
        close(np.zeros(tim.shape) + tim.getInvvar(), want[sl], 1e-4, 0, 'inverse variance')
    A = astrans(kind)
    for x, y in ((0., 0.), (5.3, -2.), (tim.shape[1] - 1., tim.shape[0] - 1.)):
        ra, dec = A.pixel_to_radec(x + x0 + .5, y + y0 + .5)
        p = tim.getWcs().pixelToPosition(x, y)
        close([p.ra, p.dec], [float(ra), float(dec)], 0, 1e-9, 'position of pixel %g,%g' % (x, y))
        close(tim.getWcs().positionToPixel(RaDecPos(float(ra), float(dec))), [x, y], 0, 1e-4, 'pixel of a position')
    same(tim.getSky().getConstant(), 0., 'sky')
    band = o.get('band', 'r')
    if o.get('nanomaggies'):
        close(tim.getPhotoCal().brightnessToCounts(NanoMaggies(**{band: 7.5})), 7.5, 1e-9, 0, 'calibration')
    else:
        close(tim.getPhotoCal().brightnessToCounts(Mags(**{band: 20.})), 10., 1e-6, 0, 'calibration')
    close(tim.getTime().getValue(), 4507681767.55, 0, 1e-3, 'time')
    meansky, cal = np.mean(S.frame.sky), np.mean(S.frame.calib)
    sig = np.sqrt(meansky / S.field.gain[b] + S.field.dark_variance[b]) * cal
    close(info['skysig'], sig, 1e-5, 0, 'sky sigma')
    same(info['sky'], 0., 'sky level')
    zr = o.get('zrange', [-3, 10])
    close(tim.zr, np.array(zr) * sig, 1e-5, 0, 'display range')
    same((info['tai'], info['stripe'], info['strip'], info['object']), (4507681767.55, 82, 'N', '82 N'), 'header details')
    # PSF
    psf = o.get('psf', 'kl-gm')
    cx, cy = tim.shape[1] // 2 + .25, tim.shape[0] // 2 - .5
    got = np.zeros(tim.shape)
    tim.getPsf().getPointSourcePatch(cx, cy).addTo(got)
    yy, xx = np.mgrid[:tim.shape[0], :tim.shape[1]]
    r2 = (xx - cx) ** 2 + (yy - cy) ** 2
    if psf.endswith('dg'):
        s1, s2, rb = S.field.dgpsf_s1[b], S.field.dgpsf_s2[b], S.field.dgpsf_b[b] * (S.field.dgpsf_s2[b] / S.field.dgpsf_s1[b]) ** 2
        a1, a2 = 1. / (1. + rb), rb / (1. + rb)
        wantp = sum(a * np.exp(-.5 * r2 / s ** 2) / (2 * np.pi * s ** 2) for a, s in ((a1, s1), (a2, s2)))
        close_img(got, wantp, 2e-3, 'double-Gaussian PSF')
    else:
        st = stamp(b, x0 + (x1 - x0) / 2., y0 + (y1 - y0) / 2.)
        if psf.endswith('kl-pix'):
            im = tim.getPsf().real.img if psf.startswith('bright') else tim.getPsf().img
            t = border(st)
            same(im.shape, (25 - 2 * t, 25 - 2 * t), 'trimmed PSF stamp')
            close(im, st[t:25 - t, t:25 - t], 1e-5, 1e-7, 'PSF stamp')
        if min(tim.shape) >= 21:
            ix, iy = tim.shape[1] // 2, tim.shape[0] // 2
            g2 = np.zeros(tim.shape)
            tim.getPsf().getPointSourcePatch(float(ix), float(iy)).addTo(g2)
            g2 = g2[iy - 10:iy + 11, ix - 10:ix + 11]
            if g2.shape == (21, 21):
                close_img(g2, st[2:-2, 2:-2], 1e-4 if psf.endswith('kl-pix') else .02, 'PSF at the centre of the region')


ROIS = [None, (0, 64, 0, 40), (5, 50, 2, 30), (40, 64, 10, 40), (9, 12, 20, 23), (0, 1, 0, 1), (20, 43, 8, 31)]
OPT = dict(
    psf=('kl-gm', 'dg', 'kl-pix', 'bright-dg', 'bright-kl-gm', 'bright-kl-pix'),
    nanomaggies=(False, True),
    iv=('full', 'ignore', 'center', 'centerimage'),
    band=('r', 'u', 'z'),
    retrieve=(True, False),
    zrange=([-3, 10], [-1, 2]),
    rel=(8, 9),
)
IV = dict(full={}, ignore=dict(invvarIgnoresSourceFlux=True), center=dict(invvarAtCenter=True), centerimage=dict(invvarAtCenterImage=True))


def expand(o):
    o = dict(o)
    o.update(IV[o.pop('iv', 'full')])
    return o


def case_image(o, masks, kind):
    o = expand(o)
    S = survey(kind, masks)
    keep = S.frame.image.copy()
    tim, info = read(S, o, retry_retrieve=False)
    check_image(S, tim, info, o, masks, kind)
    same(S.frame.image.tolist(), keep.tolist(), 'the frame')
    same(len([c for c in S.calls.log if c.startswith('retrieve')]), 3 if o.get('retrieve', True) else 0, 'files retrieved')


def case_sky_region(o, kind, how, args):
    """regions asked for by sky position: the image cut out is the one of that pixel region"""
    from tractor.imageutils import interpret_roi
    from tractor.sdss import SdssWcs
    S = survey(kind)
    w = SdssWcs(astrans(kind))
    if how == 'roiradecsize':
        x, y, s = args
        p = w.pixelToPosition(float(x), float(y))
        kw = dict(roiradecsize=(p.ra, p.dec, s))
        r = [max(0, min(W, x - s)), max(0, min(W, x + s + 1)), max(0, min(H, y - s)), max(0, min(H, y + s + 1))]
    else:
        r0, r1, d0, d1 = args
        P = [w.pixelToPosition(*q) for q in ((r0, d0), (r1, d1))]
        ras, decs = sorted(p.ra for p in P), sorted(p.dec for p in P)
        kw = dict(roiradecbox=(ras[0], ras[1], decs[0], decs[1]))
        from tractor import RaDecPos
        xy = np.array([w.positionToPixel(RaDecPos(a, b)) for a in ras for b in decs])
        xy = np.round(xy).astype(int)
        r = [np.clip(xy[:, 0].min(), 0, W), np.clip(xy[:, 0].max() + 1, 0, W), np.clip(xy[:, 1].min(), 0, H), np.clip(xy[:, 1].max() + 1, 0, H)]
    got, info = read(S, dict(o, **kw), retry_retrieve=False)
    if r[0] == r[1] or r[2] == r[3]:
        expect(got is None and info is None, 'a region that misses the frame')
        return 'empty'
    o = dict(o, roi=tuple(int(i) for i in r))
    check_image(S, got, info, o, 'some', kind)
    return 'hit'


def case_faults(o, k, times):
    """fail at the k-th access; one failure is repaired by retrieving again, an error that stays is reported"""
    o = expand(o)
    S = survey(faults=Faults(k, times))
    kw = dict(o)
    if times == 1:
        tim, info = read(S, o)
        check_image(S, tim, info, o, 'some', 'plain')
        n = len([c for c in S.calls.log if c.startswith('retrieve') and c.endswith('False')])
        same(n, 3, 'files retrieved afresh')
    else:
        raises(IOError, lambda: read(S, o))
    S2 = survey(faults=Faults(k, 1))
    raises(IOError, lambda: read(S2, o, retry_retrieve=False))


def case_wcs(kind, x0, y0):
    from tractor.sdss import SdssWcs
    from tractor import RaDecPos
    A = astrans(kind)
    w = SdssWcs(A)
    w.setX0Y0(x0, y0)
    for x, y in itertools.product((-20., 0., 31.5, 63.), (-3., 0., 20.25, 39.)):
        p = w.pixelToPosition(x, y)
        ra, dec = A.pixel_to_radec(x + x0, y + y0)
        close([p.ra, p.dec], [float(ra), float(dec)], 0, 1e-10, 'position')
        close(w.positionToPixel(p), [x, y], 0, 1e-4, 'pixel of the position of a pixel')
        close(w.pixelToRaDec(x + x0, y + y0), [p.ra, p.dec], 0, 1e-10, 'original pixels')
        h = .5
        q = [w.pixelToPosition(x + a, y + b) for a, b in ((h, 0), (-h, 0), (0, h), (0, -h))]
        dra = lambda a, b: (a - b + 180.) % 360. - 180.
        c = np.cos(np.deg2rad(p.dec))
        cd = np.array([[dra(q[0].ra, q[1].ra) * c, dra(q[2].ra, q[3].ra) * c], [q[0].dec - q[1].dec, q[2].dec - q[3].dec]])
        sc = .396 / 3600
        if abs(p.ra - 180) < 179.9:
            close(w.cdAtPixel(x, y), cd, 0, .002 * sc, 'CD matrix')
            close(np.dot(w.cdInverseAtPixel(x, y), cd), np.eye(2), 0, .01, 'inverse CD matrix')
            close(w.cdInverseAtPosition(p), w.cdInverseAtPixel(x, y), 1e-4, 1., 'inverse CD at the position')
            close(w.pixscale_at(x, y), 3600. * np.sqrt(abs(np.linalg.det(cd))), .003, 0, 'pixel scale in arcsec')
    v = w.copy()
    u = w.shifted(3, -2)
    for a, b in ((0., 0.), (12.5, 7.)):
        p = w.pixelToPosition(a, b)
        close(v.positionToPixel(p), w.positionToPixel(p), 0, 1e-9, 'copy')
        q = u.pixelToPosition(a - 3, b + 2)
        close([q.ra, q.dec], [p.ra, p.dec], 0, 1e-10, 'shifted WCS')
    # a constant CD matrix is that of the given pixel
    cd = np.array(w.cdAtPixel(10., 12.))
    v.setConstantCd(10., 12.)
    for s in (v, v.copy(), v.shifted(1, 1)):
        close(s.cdAtPixel(40., 3.), cd, 0, 1e-12, 'constant CD')
        close(np.dot(s.cdInverseAtPixel(-5., 9.), cd), np.eye(2), 0, 1e-8, 'constant inverse CD')


def case_wcs_params(kind, mask):
    """every parameter is the asTrans coefficient of its name; changes move the transformation and can be undone"""
    from tractor.sdss import SdssWcs
    w = SdssWcs(astrans(kind))
    w.setX0Y0(4.5, 2.5)
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'drow0', 'drow1', 'drow2', 'drow3', 'dcol0', 'dcol1', 'dcol2', 'dcol3', 'csrow', 'cscol', 'ccrow', 'cccol']
    for i, n in enumerate(names):
        if mask >> (i % 5) & 1:
            w.freezeParam(n)
    thawed = [n for i, n in enumerate(names) if not (mask >> (i % 5) & 1)]
    got = [n for n in w.getParamNames() if n in names]
    same(got, thawed, 'thawed parameters')
    n = w.numberOfParams()
    same([len(w.getParams()), len(w.getStepSizes()), len(w.getParamNames())], [n] * 3, 'lengths')
    base = list(w.getParams())
    ref = [(w.pixelToPosition(x, y).ra, w.pixelToPosition(x, y).dec) for x, y in ((0., 0.), (50., 30.))]
    hk = w.hashkey()
    v = w.copy()
    for i, nm in enumerate(w.getParamNames()):
        st = w.getStepSizes()[i]
        expect(st > 0, 'step size of ' + nm)
        if nm not in names:
            continue
        old = w.setParam(i, base[i] + st)
        close(old, base[i], 0, 1e-15, 'setParam returns the old value')
        A = astrans(kind)
        A.trans[nm] = A.trans[nm] + st
        for x, y in ((0., 0.), (50., 30.)):
            ra, dec = A.pixel_to_radec(x + 4.5, y + 2.5)
            p = w.pixelToPosition(x, y)
            close([p.ra, p.dec], [float(ra), float(dec)], 0, 1e-10, 'position after changing ' + nm)
            q = v.pixelToPosition(x, y)
            close([q.ra, q.dec], ref[0 if x == 0 else 1], 0, 1e-12, 'a copy is not changed by ' + nm)
        expect(w.hashkey() != hk, 'hash key after changing ' + nm)
        w.setParam(i, old)
    close(w.getParams(), base, 0, 0, 'parameters restored')
    for (x, y), r in zip(((0., 0.), (50., 30.)), ref):
        p = w.pixelToPosition(x, y)
        close([p.ra, p.dec], r, 0, 1e-12, 'transformation restored')
    same(v.getParamNames(), w.getParamNames(), 'frozen parameters of a copy')
    w.setParams(base)
    same(w.hashkey(), hk, 'hash key')


def bright_ref(S, b, R, px, py, shape):
    f = S.field
    a1, s1, a2, s2, a3, sp, beta = f.getPowerLaw(b)
    x0, x1, y0, y1 = int(np.floor(px - R)), int(np.ceil(px + R)), int(np.floor(py - R)), int(np.ceil(py + R))
    X, Y = np.meshgrid(np.arange(x0, x1 + 1), np.arange(y0, y1 + 1))
    r2 = (X - px) ** 2 + (Y - py) ** 2
    P = a1 * np.exp(-.5 * r2 / s1 ** 2) + a2 * np.exp(-.5 * r2 / s2 ** 2) + a3 * (1 + r2 / (beta * sp ** 2)) ** (-beta / 2)
    P = P / P.sum()
    out = np.zeros(shape)
    for yi in range(shape[0]):
        for xi in range(shape[1]):
            if x0 <= xi <= x1 and y0 <= yi <= y1:
                out[yi, xi] = P[yi - y0, xi - x0]
    return out


def case_bright(psf, flux, thresh, thresh2, x, y, copies):
    """the bright-star image: mixture of the ordinary and the power-law profile according to the counts"""
    from tractor import NanoMaggies, PointSource, Tractor
    from tractor.sdss import SdssPointSource
    S = survey()
    tim, info = read(S, dict(psf=psf, nanomaggies=True), retry_retrieve=False)
    p = tim.getWcs().pixelToPosition(x, y)
    kw = {}
    if thresh is not None:
        kw['thresh'] = thresh
    if thresh2 is not None:
        kw['thresh2'] = thresh2
    s = SdssPointSource(p, NanoMaggies(r=flux), **kw)
    if copies:
        s = s.copy()
        tim = tim.copy()
    lo = thresh2 if thresh2 is not None else (None if thresh is None else thresh / 2.5)
    if thresh is None or flux < lo:
        fb = 0.
    elif flux >= thresh:
        fb = 1.
    else:
        fb = (flux - lo) / (thresh - lo)
    m = s.getModelPatch(tim)
    if flux == 0:
        expect(m is None, 'no model for zero flux')
        return 'none'
    got = np.zeros(tim.shape)
    m.addTo(got)
    want = np.zeros(tim.shape)
    q = PointSource(p, NanoMaggies(r=1.)).getModelPatch(tim)
    if q is not None and fb < 1:
        q.addTo(want, scale=(1. - fb) * flux)
    if fb > 0:
        f = S.field
        a3, sp, beta = f.plpsf_p0[2], f.plpsf_sigmap[2], f.plpsf_beta[2]
        ie = np.sqrt(np.where(masked('some'), 0, ref_iv(S, {})))
        noise = 1. / np.median(ie[ie > 0])
        dc = 1e-3 * noise / flux
        R = 25. if dc > a3 else np.sqrt(beta * sp ** 2 * ((dc / a3) ** (-2. / beta) - 1.))
        # the size of the stamp is not stated exactly (.5 pixel)
        R = np.clip(R, 25., 200.)
        want = want + fb * flux * bright_ref(S, 2, R, x, y, tim.shape)
    close_img(got, want, (2e-4 + 2e-6 * flux) if fb else 1e-5, 'model of a star of %g counts, thresholds %s %s' % (flux, thresh, thresh2))
    # the image of the whole model
    tr = Tractor([tim], [s])
    close_img(tr.getModelImage(0), got, 1e-5 + 1e-6 * flux, 'model image')
    return 'bright' if fb else 'plain'


def case_bin(S_, shape, gaps, seed):
    """binned image: weighted means, summed weights; positions, calibration and PSF follow"""
    from tractor import Image, GaussianMixturePSF, LinearPhotoCal, ConstantSky, NanoMaggies, PointSource, RaDecPos, TAITime
    from tractor.sdss import scale_sdss_image, SdssWcs
    h, w = shape
    data = texture((h, w), seed) * 4
    iv = .5 + np.abs(texture((h, w), seed + 1))
    if gaps == 'some':
        iv[texture((h, w), seed + 2) > .2] = 0
    elif gaps == 'all':
        iv[:] = 0
    elif gaps == 'block':
        iv[:2 * S_, :S_] = 0
    v = np.array([[[9., 1.], [1., 7.]], [[16., 0.], [0., 20.]]])
    wcs = SdssWcs(astrans('distorted'))
    wcs.setX0Y0(.5, .5)
    tim = Image(data=data.copy(), invvar=iv.copy(), psf=GaussianMixturePSF(np.array([.7, .3]), np.zeros((2, 2)), v), wcs=wcs, sky=ConstantSky(.7),
                photocal=LinearPhotoCal(2., band='r'), name='x')
    tim.zr = [1, 2]
    kd, ki = tim.getImage().copy(), tim.getInvvar().copy()
    b = scale_sdss_image(tim, S_)
    same(tim.getImage().tolist(), kd.tolist(), 'the image')
    same(tim.getInvvar().tolist(), ki.tolist(), 'the weights')
    sh, sw = h // S_, w // S_
    same(b.shape, (sh, sw), 'shape')
    for y in range(sh):
        for x in range(sw):
            d, i = kd[y * S_:(y + 1) * S_, x * S_:(x + 1) * S_], ki[y * S_:(y + 1) * S_, x * S_:(x + 1) * S_]
            close(b.getInvvar()[y, x], i.sum(), 1e-6, 1e-9, 'weight of pixel %i,%i' % (x, y))
            close(b.getImage()[y, x], (d * i).sum() / i.sum() if i.sum() > 0 else 0., 1e-6, 1e-9, 'pixel %i,%i' % (x, y))
    for px, py in ((0., 0.), (2.5, 3.)):
        p = tim.getWcs().pixelToPosition(px, py)
        close(b.getWcs().positionToPixel(p), [(px + .5) / S_ - .5, (py + .5) / S_ - .5], 0, 1e-4, 'position')
        close(b.getWcs().cdAtPixel((px + .5) / S_ - .5, (py + .5) / S_ - .5), np.array(tim.getWcs().cdAtPixel(px, py)) * S_, 1e-6, 1e-12, 'CD matrix')
    close(b.getPhotoCal().brightnessToCounts(NanoMaggies(r=3.)), 6. / S_ ** 2, 1e-9, 0, 'calibration')
    same(b.getSky().getConstant(), .7, 'sky')
    mog = b.getPsf().mog
    close(mog.amp, [.7, .3], 1e-9, 0, 'PSF weights')
    close(mog.var, v / S_ ** 2, 1e-9, 1e-12, 'PSF size')
    close(tim.getPsf().mog.var, v, 1e-9, 1e-12, 'PSF of the original')
    if gaps == 'none' and h > 20:
        # a star binned is the star of the binned image (surface brightness)
        p = tim.getWcs().pixelToPosition(w / 2., h / 2.)
        st = PointSource(p, NanoMaggies(r=100.))
        m0, m1 = np.zeros((h, w)), np.zeros((sh, sw))
        st.getModelPatch(tim).addTo(m0)
        st.getModelPatch(b).addTo(m1)
        want = m0[:sh * S_, :sw * S_].reshape(sh, S_, sw, S_).mean(axis=(1, 3))
        close_img(m1, want, want.max() * (.2 if S_ > 2 else .05), 'star in the binned image')


def case_galaxy(psf, kind, i):
    """galaxies and stars in an SDSS image have true derivatives (the WCS serves them)"""
    from tractor import NanoMaggies, PointSource
    from tractor.galaxy import ExpGalaxy, DevGalaxy, GalaxyShape
    S = survey(kind)
    tim, info = read(S, dict(psf=psf, nanomaggies=True), retry_retrieve=False)
    p = tim.getWcs().pixelToPosition(31.3, 19.6)
    s = [PointSource(p, NanoMaggies(r=50.)), ExpGalaxy(p, NanoMaggies(r=50.), GalaxyShape(1.2, .6, 30.)), DevGalaxy(p, NanoMaggies(r=50.), GalaxyShape(.8, .8, 110.))][i]
    from tractor.patch import ModelMask
    mm = ModelMask(0, 0, W, H)

    def render():
        z = np.zeros(tim.shape)
        s.getModelPatch(tim, modelMask=mm).addTo(z)
        return z
    D = s.getParamDerivatives(tim, modelMask=mm)
    same(len(D), s.numberOfParams(), 'number of derivatives')
    base = s.getParams()
    steps = [1e-5, 1e-5, 1e-2] + [1e-3, 1e-3, 1e-2][:len(base) - 3]
    for k, st in enumerate(steps):
        s.setParam(k, base[k] + st)
        a = render()
        s.setParam(k, base[k] - st)
        b = render()
        s.setParam(k, base[k])
        want = (a - b) / (2 * st)
        got = np.zeros(tim.shape)
        D[k].addTo(got)
        # derivatives are one-sided differences with the step of the parameter
        # (.36 arcsec for a position): the direction and the size must be right
        cosine = (got * want).sum() / np.sqrt((got ** 2).sum() * (want ** 2).sum())
        ratio = np.sqrt((got ** 2).sum() / (want ** 2).sum())
        expect(cosine > .8 and .5 < ratio < 2., 'derivative %s: cosine %.3f, size %.3f of the difference quotient' % (s.getParamNames()[k], cosine, ratio))
    # flux is conserved, and the object has the size it should have (arcsec to pixels)
    z = render()
    expect(.9 * 50 < z.sum() < 1.01 * 50, 'flux %g' % z.sum())
    yy, xx = np.mgrid[:H, :W]
    close([(z * xx).sum() / z.sum(), (z * yy).sum() / z.sum()], [31.3, 19.6], 0, .3, 'centroid')
    un = s.getModelPatch(tim)
    full = np.zeros(tim.shape)
    un.addTo(full)
    close_img(full, z, 2e-2, 'model without a mask')
    # the patch made for a galaxy covers its light without covering everything
    t2 = tim.subimage(10, 60, 5, 38)
    sub = np.zeros(t2.shape)
    s.getModelPatch(t2).addTo(sub)
    close_img(sub, full[5:38, 10:60], 2e-2, 'model in a subimage')


def optsets(depth):
    D = dict((k, v[0]) for k, v in OPT.items())
    out = [{}]
    for d in range(1, depth + 1):
        for ks in itertools.combinations(sorted(OPT), d):
            for vs in itertools.product(*[OPT[k][1:] for k in ks]):
                out.append(dict(zip(ks, vs)))
    return out


def okey(o):
    return ','.join('%s=%s' % kv for kv in sorted(o.items())).replace(' ', '')


def chunk(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def shard(ck, job):
    kind, items = job
    if kind == 'image':
        ck.section('images', 'all combinations of up to %i options x 7 regions x masks x transformations' % (3 if ck.thorough else 2))
        for o, m, t in items:
            ck.case('%s:%s:%s' % (okey(o), m, t), case_image, o, m, t)
    elif kind == 'region':
        ck.section('sky-regions', 'regions by sky position over and beyond the frame')
        for o, t, how, a in items:
            ck.case('%s:%s:%s:%s' % (okey(o), t, how, a), lambda: ck.outcome(case_sky_region(o, t, how, a)))
    elif kind == 'fault':
        ck.section('faults', 'a failure at every access to the survey files, passing or lasting')
        for o, k, n in items:
            ck.case('%s:call%i:x%i' % (okey(o), k, n), case_faults, o, k, n)
    elif kind == 'wcs':
        ck.section('wcs', 'transformations x origins; all parameters x frozen sets')
        for a in items:
            if a[0] == 'geom':
                ck.case('geom:%s:%s:%s' % a[1:], case_wcs, *a[1:])
            else:
                ck.case('params:%s:%s' % a[1:], case_wcs_params, *a[1:])
    elif kind == 'bright':
        ck.section('bright-stars', 'PSFs x counts around both thresholds x thresholds x positions')
        for a in items:
            ck.case('%s:%s:%s:%s:%s:%s:%s' % a, lambda: ck.outcome(case_bright(*a)))
    elif kind == 'bin':
        ck.section('binning', 'scale x shape (remainders) x weights')
        for a in items:
            ck.case('%s:%s:%s:%s' % a, case_bin, *a)
    elif kind == 'gal':
        ck.section('sources', 'stars and galaxies in SDSS images')
        for a in items:
            ck.case('%s:%s:%s' % a, case_galaxy, *a)


def run(ck):
    th = ck.thorough
    ck.assumptions += ['frames, masks and PSF fields are the objects of astrometry.sdss filled with synthetic content; reading the files themselves is not part of this repository',
                       'the colour terms of asTrans are not used (colour 0)']
    kinds = ['plain', 'distorted', 'wrap', 'flip']
    jobs = []
    im = []
    for o in optsets(3 if th else 2):
        for r in ROIS if (th or len(o) < 2) else (None, ROIS[2], ROIS[4]):
            oo = dict(o)
            if r is not None:
                oo['roi'] = r
            for m, t in itertools.product(('some', 'none', 'edge'), kinds) if len(o) < 2 else [('some', 'plain'), ('edge', 'distorted')]:
                im.append((oo, m, t))
    jobs += [('image', c) for c in chunk(im, 8)]
    reg = []
    for t in kinds:
        for x, y in itertools.product((-20, 0, 3, 31, 63, 90), (-9, 0, 20, 39, 60)):
            for s in (0, 2, 12) if th else (2, 12):
                reg.append((dict(psf='dg'), t, 'roiradecsize', (x, y, s)))
        for a in itertools.product((-30., 5., 40., 80.), (0., 33.3, 63., 100.), (-20., 3., 25.), (10.4, 39., 70.)):
            if a[0] < a[1] and a[2] < a[3]:
                reg.append((dict(psf='dg'), t, 'roiradecbox', a))
    jobs += [('region', c) for c in chunk(reg, 4)]
    fl = []
    for o in (dict(psf='dg'), dict(psf='kl-pix', roi=(5, 50, 2, 30)), dict(retrieve=False, psf='dg'), dict(rel=9, psf='dg')):
        ncall = 4 if o.get('retrieve') is False else 6
        for k in range(1, ncall + 1):
            for n in (1, 40):
                fl.append((o, k, n))
    jobs.append(('fault', fl))
    wc = [('geom', t, a, b) for t in kinds for a, b in ((0, 0), (.5, .5), (5.5, 2.5), (100.5, -30.))]
    wc += [('params', t, m) for t in kinds for m in (range(32) if th else (0, 1, 6, 21, 30, 31))]
    jobs += [('wcs', c) for c in chunk(wc, 2)]
    br = []
    for psf in ('bright-dg', 'bright-kl-gm', 'bright-kl-pix'):
        for t1, t2 in ((None, None), (100., None), (100., 60.), (100., 100.), (5., None)):
            for f in (0., 1., 39., 40., 50., 60., 80., 99., 100., 101., 4000.):
                for (x, y) in ((31., 20.), (3.4, 35.7), (60.5, 1.2)) if th or psf == 'bright-dg' else ((31.25, 20.),):
                    for c in (False, True):
                        br.append((psf, f, t1, t2, x, y, c))
    jobs += [('bright', c) for c in chunk(br, 6)]
    bn = [(s, sh, g, 3) for s in (1, 2, 3, 4) for sh in ((12, 12), (13, 9), (8, 15), (4, 5), (30, 37)) for g in ('none', 'some', 'all', 'block')]
    jobs += [('bin', c) for c in chunk(bn, 2)]
    jobs += [('gal', c) for c in chunk([(p, t, i) for p in ('dg', 'kl-gm', 'kl-pix', 'bright-dg') for t in kinds for i in range(3)], 4)]
    ck.shards(jobs, shard)
