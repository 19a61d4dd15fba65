"""
P33: WISE.  Tiles touching a target are compared with a separating-axis test on
the whole sky; unWISE coadd files are written in every combination of present,
compressed and missing files and read back; forced photometry runs on sets of
overlapping tiles in every order and must give the fluxes of the tile whose
centre is nearest to each source; catalogue readers are compared with a plain
scan; the command-line program with the function.
"""
import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import types
import warnings
import numpy as np
from mc.core import expect, fail, close, close_img, same, raises, texture

PIX = 2.75 / 3600.


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='p33')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def tanproj(ra0, dec0, ra, dec):
    """gnomonic plane coordinates (degrees) and cosine of the distance"""
    a, d, a0, d0 = [np.deg2rad(v) for v in (ra, dec, ra0, dec0)]
    c = np.sin(d0) * np.sin(d) + np.cos(d0) * np.cos(d) * np.cos(a - a0)
    with np.errstate(all='ignore'):
        return np.rad2deg(np.cos(d) * np.sin(a - a0) / c), np.rad2deg((np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(a - a0)) / c), c


def tandeproj(ra0, dec0, xi, eta):
    x, e, a0, d0 = [np.deg2rad(v) for v in (xi, eta, ra0, dec0)]
    den = np.cos(d0) - e * np.sin(d0)
    ra = a0 + np.arctan2(x, den)
    dec = np.arctan2(np.sin(d0) + e * np.cos(d0), np.hypot(x, den))
    return np.rad2deg(ra) % 360., np.rad2deg(dec)


# ------------------------------------------------------------------ tiles

def atlas():
    import fitsio
    import wise.unwise
    return fitsio.read(os.path.join(os.path.dirname(wise.unwise.__file__), 'allsky-atlas.fits'))


def separation(P, Q):
    """largest gap between the convex polygons along their edge normals (negative: overlap)"""
    best = -1e9
    for A, B in ((P, Q), (Q, P)):
        for i in range(4):
            e = A[(i + 1) % 4] - A[i]
            n = np.array([e[1], -e[0]]) / np.hypot(*e)
            pa, pb = np.dot(A, n), np.dot(B, n)
            best = max(best, pb.min() - pa.max(), pa.min() - pb.max())
    return best


def target(ra, dec, w, h, pixscale, rot, flip):
    from astrometry.util.util import Tan
    r = np.deg2rad(rot)
    cd = pixscale / 3600. * np.array([[-np.cos(r), np.sin(r)], [np.sin(r), np.cos(r)]])
    if flip:
        cd = np.dot(cd, np.array([[-1., 0.], [0., 1.]]))
    return Tan(ra, dec, (w + 1) / 2., (h + 1) / 2., cd[0, 0], cd[0, 1], cd[1, 0], cd[1, 1], float(w), float(h)), cd


def check_tile_wcs(ra, dec, w, h, pixscale, kw):
    """a tile's projection: centred, axis-aligned, east at the left"""
    from wise.unwise import unwise_tile_wcs
    W = quiet(unwise_tile_wcs, ra, dec, **kw)
    same((int(W.get_width()), int(W.get_height())), (w, h), 'size of the tile')
    X, Y = [g.ravel() for g in np.meshgrid([.5, 1., w / 3., (w + 1) / 2., w + .5], [.5, h / 4., (h + 1) / 2., h + .5])]
    r, d = tandeproj(ra, dec, -(X - (w + 1) / 2.) * pixscale / 3600., (Y - (h + 1) / 2.) * pixscale / 3600.)
    for x, y, rr, dd in zip(X, Y, r, d):
        gr, gd = W.pixelxy2radec(x, y)
        x1, y1, c = tanproj(rr, dd, gr, gd)
        expect(c > .5 and np.hypot(x1, y1) < 1e-3 * pixscale / 3600., 'pixel (%g, %g) of the %i x %i tile at (%g, %g) is %.3g pixels away from its place' % (x, y, w, h, ra, dec, np.hypot(x1, y1) / pixscale * 3600.))


def case_tiles(ra, dec, w, h, pixscale, rot, flip):
    if abs(dec) < 90:
        # (at the very pole, east is what the WCS library makes of it)
        check_tile_wcs(ra, dec, 2048, 2048, 2.75, {})
        check_tile_wcs(ra, dec, w, h, pixscale, dict(W=w, H=h, pixscale=pixscale))
    from wise.unwise import unwise_tiles_touching_wcs
    wcs, cd = target(ra, dec, w, h, pixscale, rot, flip)
    T = atlas()
    # the target's outline, in its tangent plane (degrees)
    tp = np.array([np.dot(cd, v) for v in ((-w / 2., -h / 2.), (w / 2., -h / 2.), (w / 2., h / 2.), (-w / 2., h / 2.))])
    R = np.hypot(w, h) / 2. * pixscale / 3600.
    half = 1024 * PIX
    x, y, c = tanproj(ra, dec, T['ra'], T['dec'])
    dist = np.rad2deg(np.arccos(np.clip(c, -1, 1)))
    got = quiet(unwise_tiles_touching_wcs, wcs)
    ids = [str(s).strip() for s in got.coadd_id]
    same(len(set(ids)), len(ids), 'tiles given once')
    where = {str(t['coadd_id']).strip(): (t['ra'], t['dec']) for t in T[dist < 60]} if len(ids) else {}
    for i, r, d in zip(ids, got.ra, got.dec):
        same((r, d), where.get(i), 'position of tile ' + i)
    loose = [str(s).strip() for s in quiet(unwise_tiles_touching_wcs, wcs, polygons=False).coadd_id]
    n = 0
    for t, dd in zip(T, dist):
        if dd > R + 2.5 * half:
            continue
        tid = str(t['coadd_id']).strip()
        r, d = tandeproj(t['ra'], t['dec'], half * np.array([-1, 1, 1, -1.]), half * np.array([-1, -1, 1, 1.]))
        px, py, cc = tanproj(ra, dec, r, d)
        sep = separation(tp, np.array([px, py]).T)
        n += 1
        if abs(sep) < .5 * PIX:
            continue
        expect((tid in ids) == (sep < 0), 'tile %s: %s, but the gap to the target is %.2f tile pixels' % (tid, 'given' if tid in ids else 'not given', sep / PIX))
        if sep < 0:
            expect(tid in loose, 'tile %s touches the target but is not within its radius' % tid)
    expect(set(ids) <= set(loose), 'tiles by outline are among the tiles by radius')
    ok = {str(t['coadd_id']).strip() for t, dd in zip(T, dist) if dd < R + np.sqrt(2.) * half + .01}
    expect(set(loose) <= ok, 'tiles by radius are near: %s' % sorted(set(loose) - ok)[:3])
    return n


# ------------------------------------------------------------------ coadds

class Tile(object):
    """a small coadd: the files of one tile in one band"""

    def __init__(self, cid, ra, dec, w=48, h=44, scale=1., iv=4., nu=10, nm=7, mjd=None, seed=1):
        self.coadd_id, self.ra, self.dec = cid, ra, dec
        self.w, self.h, self.scale, self.iv, self.nu, self.nm, self.mjd, self.seed = w, h, scale, iv, nu, nm, mjd, seed

    def wcs(self):
        from astrometry.util.util import Tan
        return Tan(self.ra, self.dec, (self.w + 1) / 2., (self.h + 1) / 2., -PIX, 0., 0., PIX, float(self.w), float(self.h))

    def pixel(self, ra, dec):
        """0-based"""
        x, y, c = tanproj(self.ra, self.dec, ra, dec)
        return -x / PIX + (self.w - 1) / 2., y / PIX + (self.h - 1) / 2.

    def sky(self, px, py):
        return tandeproj(self.ra, self.dec, -(px - (self.w - 1) / 2.) * PIX, (py - (self.h - 1) / 2.) * PIX)

    def data(self, mu):
        return (texture((self.h, self.w), self.seed + (mu == 'u')) * 3).astype(np.float32)

    def invvar(self, mu):
        return (self.iv * (1.5 + texture((self.h, self.w), self.seed + 7 + (mu == 'u')))).astype(np.float32)

    def nims(self, mu):
        n = np.full((self.h, self.w), self.nm if mu == 'm' else self.nu, np.int32)
        if mu == 'u':
            Y, X = np.mgrid[:self.h, :self.w]
            n += ((3 * X + 5 * Y) % 11).astype(np.int32)
        if self.seed % 2 == 0:
            n[3:6, 4:9] = 0
            n[-1, :] = 1
        return n

    def hdr(self):
        import fitsio
        h = fitsio.FITSHDR()
        w = self.wcs()
        w.add_to_header(h)
        h.add_record(dict(name='TILEID', value=self.coadd_id))
        if self.mjd:
            h.add_record(dict(name='MJDMIN', value=self.mjd[0]))
            h.add_record(dict(name='MJDMAX', value=self.mjd[1]))
        return h

    def write(self, base, band, mus='mu', gz='', image=None, skip=(), offset=0.):
        """gz: which of i(nvvar), n, u are compressed"""
        import fitsio
        d = os.path.join(base, self.coadd_id[:3], self.coadd_id)
        os.makedirs(d, exist_ok=True)
        pre = os.path.join(d, 'unwise-%s-w%i-' % (self.coadd_id, band))
        for mu in mus:
            if 'img' not in skip:
                fitsio.write(pre + 'img-%s.fits' % mu, (self.data(mu) if image is None else image.astype(np.float32)) + np.float32(offset), header=self.hdr(), clobber=True)
            if 'iv' not in skip:
                fitsio.write(pre + 'invvar-%s.fits' % mu + ('.gz' if 'i' in gz else ''), self.invvar(mu), clobber=True)
            if 'n' not in skip:
                fitsio.write(pre + 'n-%s.fits' % mu + ('.gz' if 'n' in gz else ''), self.nims(mu), clobber=True)
        if 'u' not in mus and 'nu' not in skip:
            fitsio.write(pre + 'n-u.fits' + ('.gz' if 'u' in gz else ''), self.nims('u'), clobber=True)


def psf_of(band):
    import fitsio
    import wise.unwise
    P = fitsio.read(os.path.join(os.path.dirname(wise.unwise.__file__), 'wise-psf-avg.fits'), ext=band)
    return P['amp'].astype(float), P['mean'].astype(float), P['var'].astype(float)


def check_coadd(tim, t, band, mu, roi, bandname, offset=0.):
    from tractor import NanoMaggies, RaDecPos
    x0, x1, y0, y1 = roi
    sl = (slice(y0, y1), slice(x0, x1))
    same(tim.shape, (y1 - y0, x1 - x0), 'shape')
    same([int(i) for i in tim.roi], list(roi), 'region')
    close(tim.getImage(), t.data(mu)[sl] + offset, 0, 1e-5, 'pixels')
    iv = t.invvar(mu) * (.25 if band == 4 else 1.)
    n = t.nims(mu)
    iv = np.where(n > 0, iv, 0)[sl]
    close(tim.getInvvar(), iv, 1e-6, 0, 'inverse variance')
    if (n[sl] > 0).any():
        close(tim.sig1, 1. / np.sqrt(np.median(iv[n[sl] > 0])), 1e-6, 0, 'noise level')
    same(np.asarray(tim.nims).tolist(), n[sl].tolist(), 'number of exposures')
    same(np.asarray(tim.nuims).tolist(), t.nims('u')[sl].tolist(), 'number of exposures (unmasked)')
    for x, y in ((0., 0.), (3.5, -1.), (tim.shape[1] - 1., 5.)):
        r, d = t.sky(x + x0, y + y0)
        p = tim.getWcs().pixelToPosition(x, y)
        close([p.ra, p.dec], [r, d], 0, 1e-8, 'position of a pixel')
        close(tim.getWcs().positionToPixel(RaDecPos(r, d)), [x, y], 0, 1e-4, 'pixel of a position')
    same((int(tim.getWcs().wcs.get_width()), int(tim.getWcs().wcs.get_height())), (x1 - x0, y1 - y0), 'size of the WCS')
    amp, mu_, var = psf_of(band)
    close(tim.getPsf().mog.amp, amp, 1e-9, 0, 'PSF weights')
    close(tim.getPsf().mog.var, var, 1e-9, 1e-12, 'PSF variances')
    close(tim.getPsf().mog.mean, mu_, 1e-9, 1e-12, 'PSF means')
    close(tim.getPhotoCal().brightnessToCounts(NanoMaggies(**{bandname: 3.25})), 3.25, 1e-9, 0, 'calibration')
    same(tim.getSky().getConstant(), 0., 'sky')
    same(str(tim.hdr['TILEID']).strip(), t.coadd_id, 'header')
    if t.mjd:
        same((tim.mjdmin, tim.mjdmax), tuple(t.mjd), 'dates')
        close(tim.time.toMjd(), sum(t.mjd) / 2., 0, 1e-6, 'time')


REG = [dict(), dict(roi=(5, 30, 2, 40)), dict(roi=(0, 48, 10, 44)), dict(size=(20, 17, 6)), dict(size=(2, 40, 9)), dict(size=(-30, 10, 5)), dict(size=(47, 43, 0)),
       dict(box=(10., 30., 8., 25.)), dict(box=(-20., 5.2, 30., 99.)), dict(box=(60., 80., 3., 9.)), dict(box=(10., 20., -30., -5.))]


def region(t, r):
    if 'roi' in r:
        return dict(roi=r['roi']), r['roi']
    if 'size' in r:
        x, y, s = r['size']
        ra, dec = t.sky(float(x), float(y))
        b = [x - s, x + s + 1, y - s, y + s + 1]
        kw = dict(roiradecsize=(ra, dec, s))
    elif 'box' in r:
        x0, x1, y0, y1 = r['box']
        P = [t.sky(x0, y0), t.sky(x1, y1)]
        kw = dict(roiradecbox=(P[0][0], P[1][0], P[0][1], P[1][1]))
        xy = np.array([t.pixel(a, b) for a in (P[0][0], P[1][0]) for b in (P[0][1], P[1][1])])
        xy = np.round(xy).astype(int)
        b = [xy[:, 0].min(), xy[:, 0].max() + 1, xy[:, 1].min(), xy[:, 1].max() + 1]
    else:
        return {}, (0, t.w, 0, t.h)
    b = [int(np.clip(v, 0, m)) for v, m in zip(b, (t.w, t.w, t.h, t.h))]
    return kw, (None if b[0] == b[1] or b[2] == b[3] else tuple(b))


def case_coadd(band, masked, gz, reg, bandname, seed, mjd):
    from wise.unwise import get_unwise_tractor_image
    t = Tile('0100p200', 10., 20., seed=seed, mjd=mjd)
    mu = 'm' if masked else 'u'
    with scratch() as d:
        t.write(d, band, mus=mu, gz=gz)
        kw, roi = region(t, reg)
        if bandname:
            kw['bandname'] = bandname
        tim = quiet(get_unwise_tractor_image, d, t.coadd_id, band, masked=masked, **kw)
        if roi is None:
            expect(tim is None, 'a region outside the tile')
            return 'outside'
        check_coadd(tim, t, band, mu, roi, bandname or 'w%i' % band)
    return 'image'


def case_dirs(skips, masked, reg):
    """several directories: the first that has all the files"""
    from wise.unwise import get_unwise_tractor_image
    t = Tile('1234m056', 123.4, -5.6, seed=2)
    mu = 'm' if masked else 'u'
    with scratch() as d:
        dirs = []
        first = None
        for k, sk in enumerate(skips):
            b = os.path.join(d, 'd%i' % k)
            os.makedirs(b)
            dirs.append(b)
            if sk is None:
                continue
            t.write(b, 2, mus=mu, gz='inu'[:k + 1], skip=sk, offset=10. * k)
            if not masked:
                sk = tuple(s for s in sk if s != 'nu')
            if first is None and not sk:
                first = k
        kw, roi = region(t, reg)
        f = lambda: quiet(get_unwise_tractor_image, ':'.join(dirs), t.coadd_id, 2, masked=masked, **kw)
        if first is None:
            raises(IOError, f)
            return 'missing'
        check_coadd(f(), t, 2, mu, roi, 'w2', offset=10. * first)
        return 'dir%i' % first


# ------------------------------------------------------------------ forced photometry

def make_cat(specs, ref):
    """specs: (kind, px, py in the reference tile, flux)"""
    from tractor import RaDecPos, NanoMaggies, PointSource
    from tractor.galaxy import ExpGalaxy, DevGalaxy, FixedCompositeGalaxy
    from tractor.ellipses import EllipseE
    cat = []
    for kind, px, py, f in specs:
        r, d = ref.sky(px, py)
        pos, br = RaDecPos(float(r), float(d)), NanoMaggies(w=1.)
        if kind == 'star':
            cat.append(PointSource(pos, br))
        elif kind == 'exp':
            cat.append(ExpGalaxy(pos, br, EllipseE(4., .3, -.2)))
        elif kind == 'dev':
            cat.append(DevGalaxy(pos, br, EllipseE(3., -.1, .2)))
        else:
            cat.append(FixedCompositeGalaxy(pos, br, .4, EllipseE(4., .2, .1), EllipseE(2., 0., .3)))
    return cat


def tim_for(t, band, broad=None, pix=None):
    from tractor import Image, GaussianMixturePSF, PixelizedPSF, ConstantFitsWcs, LinearPhotoCal, ConstantSky
    amp, mu, var = psf_of(band)
    psf = GaussianMixturePSF(amp, mu, var * (broad or 1.) ** 2) if pix is None else PixelizedPSF(pix / pix.sum())
    return Image(data=np.zeros((t.h, t.w), np.float32), inverr=np.ones((t.h, t.w), np.float32), psf=psf, wcs=ConstantFitsWcs(t.wcs()), sky=ConstantSky(0.), photocal=LinearPhotoCal(1., band='w'))


def unit(tim, src):
    """unit-flux image of the source, limited in size as the program does"""
    from tractor import PointSource
    src = src.copy()
    if isinstance(src, PointSource):
        src.fixedRadius = 20
    else:
        src.halfsize = 20
    src.brightness.setParams([1.])
    out = np.zeros(tim.shape)
    p = src.getModelPatch(tim)
    if p is not None:
        p.addTo(out)
    return out


def pstamp():
    yy, xx = np.mgrid[-10:11, -10:11]
    g = np.exp(-.5 * (xx ** 2 + yy ** 2) / 1.5 ** 2) + .1 * np.exp(-.5 * ((xx - 1) ** 2 + yy ** 2) / 9.)
    return g * 3.


def case_forced(tiles, order, specs, bands, opts):
    from wise.forcedphot import unwise_forcedphot
    from astrometry.util.fits import tabledata
    broad, pix = opts.get('broad'), (pstamp() if opts.get('pix') else None)
    cat = make_cat(specs, tiles[0])
    flux = np.array([s[3] for s in specs])
    N = len(cat)
    with scratch() as d:
        U, lit = {}, {}
        box = None
        if opts.get('box'):
            x0, x1, y0, y1 = opts['box']
            P = [tiles[0].sky(x0, y0), tiles[0].sky(x1, y1)]
            box = [P[0][0], P[1][0], P[0][1], P[1][1]]

        def limits(t):
            if box is None:
                return (0, t.w, 0, t.h)
            xy = np.array([t.pixel(a, b) for a in box[:2] for b in box[2:]])
            xy = np.round(xy).astype(int)
            return (max(0, xy[:, 0].min()), min(t.w, xy[:, 0].max() + 1), max(0, xy[:, 1].min()), min(t.h, xy[:, 1].max() + 1))

        def within(t, s):
            x, y = t.pixel(s.pos.ra, s.pos.dec)
            x0, x1, y0, y1 = limits(t)
            if x1 <= x0 or y1 <= y0:
                return False
            return x0 - 10. <= x < x1 + 10. and y0 - 10. <= y < y1 + 10.
        for b in bands:
            for k, t in enumerate(tiles):
                tim = tim_for(t, b, broad, pix)
                U[k, b] = [unit(tim, s) for s in cat]
                # (light of sources beyond the 10-pixel margin is not modelled, so there is none)
                lit[k] = [within(t, s) for s in cat]
                im = sum([f * u for f, u, l in zip(flux, U[k, b], lit[k]) if l], np.zeros(tim.shape)) * t.scale * (1. + .5 * b)
                t.write(d, b, mus='m', image=im)
        T = tabledata()
        T.ra, T.dec = np.array([tiles[i].ra for i in order]), np.array([tiles[i].dec for i in order])
        T.coadd_id = np.array([tiles[i].coadd_id for i in order])
        kw = dict(bands=None if opts.get('default') else list(bands), unwise_dir=d, use_ceres=opts.get('ceres', False), ceres_block=opts.get('block', 8))
        if broad:
            kw['psf_broadening'] = broad
        if box is not None:
            kw['roiradecbox'] = box
        if opts.get('models'):
            kw['get_models'] = True
        if pix is not None:
            kw['pixelized_psf'] = True
            m = types.ModuleType('unwise_psf')
            m.get_unwise_psf = lambda band, cid: pstamp()
            sys.modules['unwise_psf'] = m
        start = [s.getPosition().getAllParams() for s in cat]
        try:
            phot = quiet(unwise_forcedphot, cat, T, **kw)
        finally:
            sys.modules.pop('unwise_psf', None)
    models = None
    if opts.get('models'):
        phot, models = phot
    same(len(phot), N, 'rows')
    same([s.getPosition().getAllParams() for s in cat], start, 'positions')
    kept = []
    for i, s in enumerate(cat):
        best = None
        for k in order:
            t = tiles[k]
            x, y = t.pixel(s.pos.ra, s.pos.dec)
            td = max(abs(x - (t.w - 1) / 2.), abs(y - (t.h - 1) / 2.))
            lim = limits(t)
            if lim[0] - .5 <= x < lim[1] - .5 and lim[2] - .5 <= y < lim[3] - .5 and (best is None or td < best[0]):
                best = (td, k, x, y, lim)
        kept.append(best)
        same(str(phot.tile[i]).strip(), tiles[best[1]].coadd_id if best else '', 'tile of source %i' % i)
    for b in bands:
        w = 'w%i_' % b
        anymjd = False
        for i in range(N):
            nm, iv = phot.get(w + 'nanomaggies')[i], phot.get(w + 'nanomaggies_ivar')[i]
            mag, err = phot.get(w + 'mag')[i], phot.get(w + 'mag_err')[i]
            if kept[i] is None:
                same((nm, iv, phot.get(w + 'nexp')[i]), (0, 0, 0), 'photometry of a source outside the tiles')
                expect(np.isnan(mag) and np.isnan(err), 'magnitude of a source outside the tiles')
                continue
            td, k, x, y, (x0, x1, y0, y1) = kept[i]
            t = tiles[k]
            want = flux[i] * t.scale * (1. + .5 * b)
            ivm = np.where(t.nims('m') > 0, t.invvar('m'), 0) * (.25 if b == 4 else 1.)
            wiv = (U[k, b][i] ** 2 * ivm)[y0:y1, x0:x1].sum()
            close(iv, wiv, 3e-3 if flux[i] > 0 else .03, 0, 'band %i: inverse variance of source %i' % (b, i))
            close(nm, want, 2e-3, 2e-3 + .02 / np.sqrt(wiv), 'band %i: flux of source %i, from tile %i' % (b, i, k))
            if nm > 0:
                close(mag, 22.5 - 2.5 * np.log10(nm), 0, 1e-4, 'magnitude')
                close(err, 2.5 / np.log(10) / np.sqrt(iv) / nm, 1e-3, 1e-6, 'magnitude error')
            else:
                expect(np.isnan(mag) and np.isnan(err), 'magnitude of a source without flux')
            same(int(phot.get(w + 'nexp')[i]), int(t.nims('u')[int(np.clip(np.round(y), y0, y1 - 1)), int(np.clip(np.round(x), x0, x1 - 1))]), 'exposures')
            if t.mjd:
                close(phot.get(w + 'mjd')[i], sum(t.mjd) / 2., 0, 1e-6, 'date')
            if flux[i] > 0:
                expect(phot.get(w + 'prochi2')[i] < .05, 'residuals of source %i: %g' % (i, phot.get(w + 'prochi2')[i]))
                close(phot.get(w + 'pronexp')[i] / phot.get(w + 'pronpix')[i], t.nm, .35 if t.seed % 2 == 0 else 1e-3, 0, 'mean exposures under the profile')
                expect(0 < phot.get(w + 'npix')[i] <= t.w * t.h, 'number of pixels')
                g = (t.nims('m') > 0)[y0:y1, x0:x1]
                u = np.abs(U[k, b][i])[y0:y1, x0:x1]
                rest = sum([f * v for j, (f, v, l) in enumerate(zip(flux, U[k, b], lit[k])) if l and j != i], np.zeros((t.h, t.w)))[y0:y1, x0:x1] * t.scale * (1. + .5 * b)
                close(phot.get(w + 'pronpix')[i], u[g].sum(), .02, 5e-3, 'band %i: fraction of the profile of source %i on good pixels' % (b, i))
                close(phot.get(w + 'proflux')[i], (np.abs(rest) * u)[g].sum(), .03, .02, 'band %i: light of the others on source %i' % (b, i))
        if models is not None:
            for k in set(v[1] for v in kept if v is not None):
                t = tiles[k]
                m, roi = models[(t.coadd_id, b)]
                want = sum([f * u for f, u, l in zip(flux, U[k, b], lit[k]) if l]) * t.scale * (1. + .5 * b)
                x0, x1, y0, y1 = [int(v) for v in roi]
                close_img(np.asarray(m, float), want[y0:y1, x0:x1], .02 * max(1., want.max()), 'model of tile %i' % k)
    return 'kept:%s' % ''.join('-' if v is None else str(v[1]) for v in kept)


# ------------------------------------------------------------------ catalogues

def parts(path, which, dens):
    """all part files: sources on a grid of positions around each declination limit"""
    import fitsio
    from wise.allwisecat import allwise_catalog_dec_range
    from wise.wisecat import wise_catalog_dec_range
    R = allwise_catalog_dec_range if which == 'allwise' else wise_catalog_dec_range
    pat = os.path.join(path, 'wise-%s-cat-part%%02i' % ('allwise' if which == 'allwise' else 'allsky'))
    ras = np.linspace(0., 359.9, dens)
    allr, alld, alli = [], [], []
    k = 0
    for i, (lo, hi) in enumerate(R):
        same(lo < hi, True, 'declination range')
        if i:
            same(lo, R[i - 1][1], 'declination ranges join')
        d = np.concatenate([np.linspace(lo, hi, 5)[:-1], [lo + 1e-4, hi - 1e-4]])
        D, A = [v.ravel() for v in np.meshgrid(d, ras, indexing='ij')]
        A = (A + 7.3 * i) % 360.
        n = len(A)
        ids = np.arange(k, k + n)
        k += n
        full = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'), ('ident', 'i4'), ('w1mpro', 'f4')])
        full['ra'], full['dec'], full['ident'], full['w1mpro'] = A, D, ids, ids % 17
        fitsio.write((pat % (i + 1)) + '.fits', full, clobber=True)
        fitsio.write((pat % (i + 1)) + '-radec.fits', full[['ra', 'dec']].copy(), clobber=True)
        allr.append(A), alld.append(D), alli.append(ids)
    same((R[0][0], R[-1][1]), (-90., 90.), 'declination ranges cover the sky')
    return np.concatenate(allr), np.concatenate(alld), np.concatenate(alli)


def case_cats(which, dens, boxes, wcses):
    from wise.allwisecat import allwise_catalog_radecbox, allwise_catalog_wcs
    from wise.wisecat import wise_catalog_radecbox
    n = 0
    with scratch() as d:
        ra, dec, ids = parts(d, which, dens)
        f = allwise_catalog_radecbox if which == 'allwise' else wise_catalog_radecbox
        for r0, r1, d0, d1 in boxes:
            for cols in (None, ['ident', 'w1mpro']):
                n += 1
                T = quiet(f, r0, r1, d0, d1, path=d, cols=cols)
                want = ids[(ra >= r0) & (ra <= r1) & (dec >= d0) & (dec <= d1)]
                got = [] if T is None else sorted(int(i) for i in T.ident)
                same(got, sorted(int(i) for i in want), 'sources in the box %s' % ((r0, r1, d0, d1),))
                if T is not None:
                    same([int(v) for v in T.w1mpro], [int(i) % 17 for i in T.ident], 'columns of the rows')
                    if cols:
                        same(sorted(T.get_columns()), sorted(cols), 'columns')
                    else:
                        close(T.dec, dec[np.array(T.ident, int)], 0, 1e-9, 'declination')
        if which == 'allwise':
            for a in wcses:
                n += 1
                margin, a = a[-1], a[:-1]
                wcs, cd = target(*a)
                w, h = a[2:4]
                T = quiet(allwise_catalog_wcs, wcs, pixelmargin=margin, path=d)
                x, y, c = tanproj(a[0], a[1], ra, dec)
                px = np.dot(np.linalg.inv(cd), [x, y])
                with np.errstate(all='ignore'):
                    gap = np.maximum(np.abs(px[0]) - w / 2. - margin, np.abs(px[1]) - h / 2. - margin)
                got = set() if T is None else set(int(i) for i in T.ident)
                ins = (c > 0) & (gap < -.01)
                out = ~((c > 0) & (gap < .01))
                expect(set(ids[ins].tolist()) <= got, 'sources inside %s missing: %s' % (a, sorted(set(ids[ins].tolist()) - got)[:5]))
                expect(not (got & set(ids[out].tolist())), 'sources outside %s given: %s' % (a, sorted(got & set(ids[out].tolist()))[:5]))
    return n


# ------------------------------------------------------------------ program

def case_main(ra0, dec0, types_, argv, nocer):
    """the command-line program: catalogue in, table out"""
    import wise.forcedphot as fp
    from wise.unwise import unwise_tiles_touching_wcs
    from astrometry.util.fits import tabledata, fits_table
    ref = Tile('ref', ra0, dec0, w=60, h=50)
    spots = [(12., 11., 20.), (40., 30., 55.), (25., 38., 8.), (47., 13., 30.), (30., 20., 12.)]
    kinds = ['star', 'exp', 'dev', 'comp', 'star']
    specs = [(k if types_ else 'star', x, y, f) for k, (x, y, f) in zip(kinds, spots)]
    cat = make_cat(specs, ref)
    with scratch() as d:
        T = tabledata()
        T.ra = np.array([s.pos.ra for s in cat])
        T.dec = np.array([s.pos.dec for s in cat])
        if types_:
            names = dict(star=('PTSRC', 'STAR', 'S')[types_ % 3], exp=('EXP', 'E', 'EXP')[types_ % 3], dev=('DEV', 'D', 'D')[types_ % 3], comp=('COMP', 'C', 'COMP')[types_ % 3])
            T.type = np.array([names[k[0]] for k in specs])
            T.shapeexp = np.array([[4., .3, -.2] if k[0] == 'exp' else [4., .2, .1] for k in specs])
            T.shapedev = np.array([[3., -.1, .2] if k[0] == 'dev' else [2., 0., .3] for k in specs])
            T.fracdev = np.array([.4] * len(specs))
        fn, out = os.path.join(d, 'in.fits'), os.path.join(d, 'out.fits')
        T.writeto(fn)
        bands = [1, 2]
        args = list(argv)
        if '-b' in args:
            bands = []
            for i, a in enumerate(args):
                if a == '-b':
                    bands += [int(c) for c in args[i + 1]]
        keep = np.ones(len(cat), bool)
        for i, a in enumerate(args):
            if a in ('-d', '-D', '-r', '-R'):
                v = float(args[i + 1]) if not isinstance(args[i + 1], tuple) else ref.sky(*args[i + 1])[a in '-d-D']
                args[i + 1] = repr(float(v))
                if a in ('-d', '-D'):
                    keep &= (T.dec >= v) if a == '-d' else (T.dec <= v)
                else:
                    dr = (T.ra - v + 180.) % 360. - 180.
                    keep &= (dr >= 0) if a == '-r' else (dr <= 0)
        wide, cd = target(ra0, dec0, 200, 200, 2.75, 0., False)
        tl = quiet(unwise_tiles_touching_wcs, wide)
        for tt in tl:
            # the part of the tile around the target, on the grid of the tile
            x, y, c = tanproj(tt.ra, tt.dec, ra0, dec0)
            t = Sub(tt.coadd_id.strip(), tt.ra, tt.dec, int(round(-x / PIX)), int(round(y / PIX)))
            for b in bands:
                tim = tim_for(t, b)
                im = sum(f[3] * unit(tim, s) for f, s in zip(specs, cat))
                t.write(d, b, mus='m', image=im)
        old = sys.argv
        sys.argv = ['forcedphot'] + (['--no-ceres'] if nocer else []) + args + ['-u', d, fn, out]
        try:
            quiet(fp.main)
        finally:
            sys.argv = old
        R = fits_table(out)
        same(len(R), int(keep.sum()), 'rows of the output')
        for b in bands:
            nm = R.get('w%i_nanomaggies' % b)
            close(nm, [s[3] for s, k in zip(specs, keep) if k], 5e-3, .02, 'fluxes in band %i' % b)
        same(sorted(c for c in R.get_columns() if c.endswith('nanomaggies')), sorted('w%i_nanomaggies' % b for b in set(bands)), 'bands of the output')


class Sub(Tile):
    """part of a full tile: 120 x 120 pixels around an offset (pixels) from its centre"""

    def __init__(self, cid, ra, dec, ox, oy):
        Tile.__init__(self, cid, ra, dec, w=120, h=120)
        self.ox, self.oy = ox, oy

    def wcs(self):
        from astrometry.util.util import Tan
        return Tan(self.ra, self.dec, (self.w + 1) / 2. - self.ox, (self.h + 1) / 2. - self.oy, -PIX, 0., 0., PIX, float(self.w), float(self.h))


def chunk(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def shard(ck, job):
    kind, items = job
    if kind == 'tiles':
        ck.section('tiles', 'targets over the whole sky (poles, RA wrap) x sizes x rotations x parities; every tile of the atlas judged')
        for a in items:
            ck.case(','.join(map(str, a)), lambda: ck.step(case_tiles(*a)))
    elif kind == 'coadd':
        ck.section('coadds', 'bands x masked or not x compressed sets x 11 regions x gaps, dates, band names')
        for a in items:
            ck.case(':'.join(map(str, a)), lambda: ck.outcome(case_coadd(*a)))
    elif kind == 'dirs':
        ck.section('directories', 'up to 3 directories, each with every set of missing files')
        for a in items:
            ck.case(str(a), lambda: ck.outcome(case_dirs(*a)[:4]))
    elif kind == 'forced':
        ck.section('forced-photometry', 'sets of overlapping tiles in every order x source layouts x bands x options')
        for k, a in items:
            ck.case(k, lambda: (case_forced(*a), ck.step(len(a[1])))[0])
    elif kind == 'cats':
        ck.section('catalogues', 'boxes and fields around every declination limit')
        for a in items:
            ck.case(a[0] + ':%i' % len(a[2]) + ':%s' % str(a[2][:1]), lambda: ck.step(case_cats(*a)))
    else:
        ck.section('program', 'the command line: catalogue kinds x selections x bands')
        for a in items:
            ck.case(str(a), case_main, *a)


def layouts():
    """tiles and sources: A alone; A,B overlapping in RA; A,B,C around a corner"""
    def T(k, dx, dy, **kw):
        # (square, like the real ones: the tile with the nearest centre contains a source if any does)
        ref = Tile('x', 40., -12., h=48)
        r, d = ref.sky((ref.w - 1) / 2. + dx, (ref.h - 1) / 2. + dy)
        return Tile(('0400m120', '0401m120', '0400m119')[k], float(r), float(d), h=48, scale=1. + .25 * k, iv=4. + k, nu=10 + 3 * k, nm=7 + 2 * k, mjd=(55000. + 100 * k, 55010. + 100 * k), seed=(1, 3, 2)[k], **kw)
    A, B, C = T(0, 0, 0), T(1, -26, 1), T(2, 3, 25)
    S = dict(
        one=[('star', 20.3, 21.8, 50.)],
        none=[],
        grid=[('star', 8.2, 9.4, 30.), ('star', 38., 9., 20.), ('star', 9.3, 35.2, 25.), ('star', 37.6, 33.4, 60.)],
        kinds=[('star', 10., 10., 40.), ('exp', 35.5, 12.2, 60.), ('dev', 12.4, 34.1, 50.), ('comp', 36.2, 33.8, 70.)],
        blend=[('star', 20., 20., 40.), ('star', 22.5, 21., 25.), ('exp', 18., 23., 30.)],
        overlap=[('star', 4., 20., 40.), ('star', 12.3, 22.7, 30.), ('star', 20.2, 30.1, 20.), ('star', -12.3, 21.4, 50.), ('star', 40.1, 14.2, 15.)],
        corner=[('star', 6.3, 38.2, 40.), ('star', 16.8, 33.3, 30.), ('star', 25., 55., 25.), ('star', -5., 30., 35.), ('exp', 30., 39., 20.), ('star', 40., 5., 10.), ('star', 35.4, 35.6, 28.), ('star', 9.4, 11.3, 22.)],
        outside=[('star', 20., 20., 30.), ('star', 300., 20., 30.), ('star', 20., -200., 30.), ('star', 50.3, 21., 25.), ('star', 47.2, 40., 20.)],
        edges=[('star', 0., 20., 30.), ('star', 47.4, 22., 20.), ('star', 22., .1, 25.), ('star', 24., 47.3, 35.), ('star', -.4, -.4, 40.)],
        faint=[('star', 15., 15., 0.), ('star', 33., 30., -4.), ('star', 30., 12., 30.)],
    )
    return (A, B, C), S


def run(ck):
    th = ck.thorough
    ck.assumptions += ['coadds are written by the check (48x44 pixels instead of 2048x2048) with the names and headers of unWISE', 'sources lie more than .05 pixel from tile edges and are either within the 10-pixel margin or contribute no light',
                       'a stand-in module provides the pixelized PSFs (unwise_psf is a separate package)']
    jobs = []
    tl = []
    sk = [(r, d) for d in (-90., -89.5, -80., -45.3, -.7, 0., 12.1, 60., 85., 89.9) for r in ((0., 77.7, 180., 359.95) if not th else np.arange(0., 360., 30.) + .05)]
    for r, d in sk:
        for w, h, p, rot, fl in [(100, 80, 2.75, 0., False), (2048, 2048, 2.75, 0., False), (900, 300, 4., 37., True), (3, 2, 1500., 20., False)] + ([(4000, 5000, .262, 0., True), (10, 3000, 3., 120., False), (2, 3, 2000., 200., True), (1, 1, .3, 0., False)] if th else []):
            tl.append((r, d, w, h, p, rot, fl))
    jobs += [('tiles', c) for c in chunk(tl, 8)]
    co = []
    for b, m, gz in itertools.product((1, 2, 3, 4), (True, False), ('', 'i', 'n', 'u', 'inu') if th else ('', 'inu')):
        for i, r in enumerate(REG):
            co.append((b, m, gz, r, None if i % 2 else 'w', 1 + (b + i) % 2, (55400., 55600.) if i % 3 else None))
    jobs += [('coadd', c) for c in chunk(co, 3)]
    sets = [None, (), ('img',), ('iv',), ('n',), ('nu',)]
    dr = [(s, m, r) for k in (1, 2, 3) for s in itertools.product(sets, repeat=k) for m in (True, False) for r in (({}, REG[1]) if k < 3 else ({},)) if not (m is False and ('n',) in s)]
    jobs += [('dirs', c) for c in chunk(dr, 3)]
    (A, B, C), S = layouts()
    fo = []
    for name in sorted(S):
        for opts in [{}, dict(ceres=True), dict(broad=1.04), dict(models=True), dict(pix=True)] + ([dict(ceres=True, block=50), dict(ceres=True, broad=1.1, models=True)] if th else []):
            bs = [(1,)] if opts else [(1,), (4, 2), (1, 2, 3, 4)]
            for bd in bs:
                tsets = [((A,), (0,))]
                if name in ('overlap', 'corner', 'outside') and (not opts or 'ceres' in opts or 'models' in opts or th):
                    tsets += [((A, B), o) for o in itertools.permutations(range(2))]
                if name == 'corner' and not opts or th:
                    tsets += [((A, B, C), o) for o in itertools.permutations(range(3))]
                for ts, o in tsets:
                    if not S[name] and opts.get('models'):
                        continue
                    fo.append(('%s:%s:%s:%s' % (name, ''.join('ABC'[i] for i in o), ','.join(map(str, bd)), sorted(opts.items())), (ts, o, S[name], bd, opts)))
        fo.append(('%s:default bands' % name, ((A,), (0,), S[name], (1, 2, 3, 4), dict(default=True))))
        for box in ((21., 40., 3., 44.), (30., 45., 4., 44.)):
            if name in ('overlap', 'corner'):
                # (B: its edge, or nothing of it)
                fo += [('%s:AB:box%s:%s' % (name, box, o), ((A, B), o, S[name], (1,), dict(box=box))) for o in itertools.permutations(range(2))]
        for box in ((2., 40., 3., 38.), (0., 20., -30., 80.)):
            if name in ('grid', 'overlap', 'kinds'):
                fo.append(('%s:box%s' % (name, box), ((A,), (0,), S[name], (1,), dict(box=box))))
    jobs += [('forced', c) for c in chunk(fo, 8)]
    lim = [-74.24, -30.5514, -1.8619, .7462, 36.5487, 73.6202, -74.4136, 2.2252, 66.5832]
    boxes = [(r0, r0 + dr_, l - a, l + b) for l in lim for r0, dr_ in ((0., 360.), (10., 100.)) for a, b in ((.5, .5), (0., 0.), (4., 3.), (1e-5, 1e-5))]
    boxes += [(0., 360., -90., 90.), (20., 10., -5., 5.), (100., 101., 89., 90.), (0., 360., -90., -90.), (0., 360., 90., 90.)]
    wc = [(r, d, w, h, p, rot, False, mg) for d in (-89., -74.24, -1.8, 0.7462, 36.6, 80., 89.5) for r in (0.02, 123.) for w, h, p, rot in ((300, 200, 30., 0.), (900, 900, 15., 30.)) for mg in (0, 50)]
    for wh in ('allwise', 'allsky'):
        jobs.append(('cats', [(wh, 40 if th else 24, boxes, wc)]))
    ma = []
    for r, d in ((123.4, 33.), (.003, -20.), (359.99, 61.)):
        for ty in (0, 1, 2, 3):
            for av in ((), ('-b', '1', '-b', '3'), ('-b', '24'), ('-d', (0, 15)), ('-D', (0, 35)), ('-r', (44, 0)), ('-R', (20, 0)), ('-d', (0, 12), '-r', (44, 0), '-b', '2')):
                if th or ty == 0 or not av or (ty == 1 and '-b' in av):
                    ma.append((r, d, ty, av, True))
            ma.append((r, d, ty, (), False))
    jobs += [('main', c) for c in chunk(ma, 4)]
    ck.shards(jobs, shard)
