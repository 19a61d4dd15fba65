"""
P32: dust extinction and CFHT calibration.  The interpolation is run on every
small map over a few values (gaps included) at every quarter-pixel position;
E(B-V) over a grid of the whole sky, both hemispheres and the edges of the
maps, on synthetic polar maps, against the published projection formula;
CFHT header files and photometric calibrations against their definitions.
"""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import numpy as np
from mc.core import expect, close, same, raises, texture

S = 64


def header(n):
    import fitsio
    h = fitsio.FITSHDR()
    d = np.rad2deg(np.sqrt(2.)) / (S / 2.)
    for k, v in [('CTYPE1', 'GLON-ZEA'), ('CTYPE2', 'GLAT-ZEA'), ('CRVAL1', 90.), ('CRVAL2', 90. * n), ('CRPIX1', S / 2 + .5), ('CRPIX2', S / 2 + .5),
                 ('LONPOLE', 180.), ('CD1_1', -d), ('CD1_2', 0.), ('CD2_1', 0.), ('CD2_2', d)]:
        h.add_record(dict(name=k, value=v))
    return h


def maps(kind):
    yy, xx = np.mgrid[:S, :S]
    out = []
    for n in (1, -1):
        if kind == 'ramp':
            m = 1. + .01 * xx + .002 * yy * (2 if n > 0 else 3)
        elif kind == 'one-sided':
            m = np.where(xx < S // 2, 1., 7.) + np.where(yy < S // 2, 0., 20.) + (n < 0) * 50.
        else:
            m = 1.5 + texture((S, S), 4 + n)
        r = np.hypot(xx - S / 2 + .5, yy - S / 2 + .5)
        if kind != 'one-sided':
            m = np.where(r > S / 2 + .5, 0., m)
        out.append(m.astype(np.float32))
    return out


def write(d, kind, sub='maps'):
    import fitsio
    os.makedirs(os.path.join(d, sub), exist_ok=True)
    fns = [os.path.join(d, sub, 'SFD_dust_4096_%sgp.fits' % c) for c in 'ns']
    for fn, m, n in zip(fns, maps(kind), (1, -1)):
        fitsio.write(fn, m, header=header(n), clobber=True)
    return fns


def interp(im, x, y):
    """bilinear, gaps (zeros) not counted: within rows first, then between them; constant beyond the edge"""
    h, w = im.shape
    x, y = min(max(x, 0.), w - 1.), min(max(y, 0.), h - 1.)
    i, j = int(np.floor(x)), int(np.floor(y))

    def mix(a, b, f):
        if a == 0:
            return b
        if b == 0:
            return a
        return (1 - f) * a + f * b
    rows = [mix(im[jj, i], im[jj, min(i + 1, w - 1)], x - i) for jj in (j, min(j + 1, h - 1))]
    return mix(rows[0], rows[1], y - j)


def case_interp(shape, vals, step):
    from tractor.sfd import SFDMap
    h, w = shape
    im = np.array(vals, np.float32).reshape(shape)
    xs, ys = np.arange(-.5, w - .5 + 1e-9, step), np.arange(-.5, h - .5 + 1e-9, step)
    X, Y = [a.ravel() for a in np.meshgrid(xs, ys)]
    keep = im.copy()
    got = SFDMap.bilinear_interp_nonzero(im, X, Y)
    same(im.tolist(), keep.tolist(), 'the map')
    want = [interp(im.astype(float), x, y) for x, y in zip(X, Y)]
    close(got, want, 1e-6, 1e-9, 'interpolated map at x=%s y=%s' % (X.tolist()[:3], Y.tolist()[:3]))
    # nothing depends on what else is asked for
    k = len(X) // 3
    close(SFDMap.bilinear_interp_nonzero(im, X[k:k + 1], Y[k:k + 1]), want[k:k + 1], 1e-6, 1e-9, 'a single position')
    return len(X)


def galactic(ra, dec):
    a, d = np.deg2rad(ra), np.deg2rad(dec)
    ap, dp, lc = np.deg2rad([192.85948, 27.12825, 122.93192])
    sb = np.sin(d) * np.sin(dp) + np.cos(d) * np.cos(dp) * np.cos(a - ap)
    l = lc - np.arctan2(np.cos(d) * np.sin(a - ap), np.sin(d) * np.cos(dp) - np.cos(d) * np.sin(dp) * np.cos(a - ap))
    return np.rad2deg(l) % 360., np.rad2deg(np.arcsin(np.clip(sb, -1, 1)))


def equatorial(l, b):
    l, b = np.deg2rad(l), np.deg2rad(b)
    ap, dp, lc = np.deg2rad([192.85948, 27.12825, 122.93192])
    sd = np.sin(b) * np.sin(dp) + np.cos(b) * np.cos(dp) * np.cos(lc - l)
    a = ap + np.arctan2(np.cos(b) * np.sin(lc - l), np.sin(b) * np.cos(dp) - np.cos(b) * np.sin(dp) * np.cos(lc - l))
    return np.rad2deg(a) % 360., np.rad2deg(np.arcsin(np.clip(sd, -1, 1)))


def pixel(l, b):
    """0-based pixel in the map of its hemisphere (Schlegel, Finkbeiner & Davis 1998)"""
    n = 1 if b >= 0 else -1
    r = np.sqrt(1 - n * np.sin(np.deg2rad(b))) * S / 2
    return r * np.cos(np.deg2rad(l)) + (S - 1) / 2., -n * r * np.sin(np.deg2rad(l)) + (S - 1) / 2., n


def want_ebv(kind, ra, dec):
    N, So = [m.astype(float) for m in maps(kind)]
    out = []
    for r, d in zip(ra, dec):
        l, b = galactic(r, d)
        x, y, n = pixel(l, b)
        out.append(interp(N if n > 0 else So, x, y))
    return np.array(out)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def tol(kind):
    # (the rotation to galactic coordinates agrees to a few milliarcsec; the maps are steep at the jumps)
    return .02 if kind == 'one-sided' else 2e-4


def case_sky(kind, how, ls, bs):
    from tractor.sfd import SFDMap
    d = tempfile.mkdtemp(prefix='p32')
    old = os.environ.get('DUST_DIR')
    try:
        fns = write(d, kind)
        if how == 'files':
            m = quiet(SFDMap, ngp_filename=fns[0], sgp_filename=fns[1])
        elif how == 'dir':
            os.environ.pop('DUST_DIR', None)
            m = SFDMap(dustdir=d)
        elif how == 'env':
            os.environ['DUST_DIR'] = d
            m = SFDMap()
        else:
            # an explicit file wins over the directory
            e = tempfile.mkdtemp(prefix='p32', dir=d)
            write(e, 'ramp' if kind != 'ramp' else 'one-sided')
            os.environ['DUST_DIR'] = e
            m = SFDMap(ngp_filename=fns[0], sgp_filename=fns[1])
        L, B = [a.ravel() for a in np.meshgrid(ls, bs)]
        ra, dec = equatorial(L, B)
        r0, d0 = ra.copy(), dec.copy()
        want = want_ebv(kind, ra, dec)
        got = m.ebv(ra, dec)
        close(got, want, tol(kind), 1e-6, 'E(B-V) over l=%s b=%s' % (list(ls)[:4], list(bs)[:4]))
        # one hemisphere alone, one position alone, another order
        for I in (np.flatnonzero(B > 0), np.flatnonzero(B < 0), np.array([len(B) // 2]), np.arange(len(B))[::-1]):
            if len(I):
                close(m.ebv(ra[I], dec[I]), got[I], 1e-9, 1e-9, 'E(B-V) of %i of the positions' % len(I))
        same(ra.tolist() + dec.tolist(), r0.tolist() + d0.tolist(), 'positions')
        for filts in ([], ['DES g'], ['DES r', 'DES g', 'DES r'], sorted(SFDMap.extinctions)):
            A = m.extinction(filts, ra, dec)
            same(A.shape, (len(ra), len(filts)), 'shape of the extinctions')
            for j, f in enumerate(filts):
                close(A[:, j], COEF[f] * got, 1e-6, 1e-9, 'extinction in ' + f)
            e2, A2 = m.extinction(filts, ra, dec, get_ebv=True)
            close(e2, got, 0, 1e-9, 'E(B-V) returned with the extinctions')
            close(A2, A, 0, 1e-9, 'extinctions returned with E(B-V)')
        raises(KeyError, lambda: m.extinction(['nonesuch'], ra, dec))
        return len(ra)
    finally:
        if old is None:
            os.environ.pop('DUST_DIR', None)
        else:
            os.environ['DUST_DIR'] = old
        shutil.rmtree(d, ignore_errors=True)


# Schlafly & Finkbeiner 2011 (DECam updates), Fitzpatrick 1999 for WISE, GALEX as in the documentation of the class
COEF = {'FUV': 6.793, 'NUV': 6.620, 'SDSS u': 4.239, 'DES u': 3.995, 'DES g': 3.214, 'DES r': 2.165, 'DES i': 1.592, 'DES z': 1.211, 'DES Y': 1.064,
        'WISE W1': 0.184, 'WISE W2': 0.113, 'WISE W3': 0.0241, 'WISE W4': 0.00910}


def case_missing(have):
    """no map without both files"""
    from tractor.sfd import SFDMap
    d = tempfile.mkdtemp(prefix='p32')
    try:
        fns = write(d, 'ramp')
        for fn, h in zip(fns, have):
            if not h:
                os.unlink(fn)
        if all(have):
            m = SFDMap(dustdir=d)
            close(m.ebv(np.array([10.]), np.array([20.])), want_ebv('ramp', [10.], [20.]), 1e-3, 0, 'E(B-V)')
        else:
            raises(RuntimeError, lambda: SFDMap(dustdir=d))
            raises(RuntimeError, lambda: SFDMap(ngp_filename=fns[0], sgp_filename=fns[1], dustdir=d))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------- CFHT

LINES = dict(f=("EXPTIME =            600.0 / s", 'EXPTIME', 600.), i=("NAXIS   =                    2", 'NAXIS', 2), s=("FILTER  = 'r.MP9601'           / name", 'FILTER', 'r.MP9601'),
             n=("PHOT_K  =              -0.10", 'PHOT_K', -.1), c=("COMMENT   free text", None, None))


def case_head(blocks, last_end, pad, nl):
    """a .head file: headers one after another, each closed by END"""
    from tractor.cfht import parse_head_file
    d = tempfile.mkdtemp(prefix='p32')
    try:
        fn = os.path.join(d, 'x.head')
        lines = []
        for k, b in enumerate(blocks):
            lines += [LINES[c][0] for c in b]
            if last_end or k < len(blocks) - 1:
                lines.append('END' + ' ' * 5 * pad)
        with open(fn, 'w') as f:
            f.write('\n'.join(x.ljust(80 if pad else 0) for x in lines) + ('\n' if nl and lines else ''))
        hs = quiet(parse_head_file, fn)
        # (a block without cards is no header)
        want = [b for b in blocks if len(b)]
        same(len(hs), len(want), 'number of headers')
        for h, b in zip(hs, want):
            for c in 'fisn':
                t, k, v = LINES[c]
                same(k in [x for x in h.keys()], c in b, 'card %s present' % k)
                if c in b:
                    same(h[k], v, 'value of ' + k)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_cfht(exptime, c, k, airmass, band, mag):
    from tractor.cfht import CfhtLinearPhotoCal, CfhtPhotoCal
    from tractor import NanoMaggies, Mags
    hdr = dict(EXPTIME=exptime, PHOT_C=c, PHOT_K=k, AIRMASS=airmass)
    # m = -2.5 log(DN) + 2.5 log(EXPTIME);  M = m + C + K (airmass - 1)
    counts = 10. ** ((c + k * (airmass - 1) + 2.5 * np.log10(exptime) - mag) / 2.5)
    other = 'g' if band != 'g' else 'r'
    lin = quiet(CfhtLinearPhotoCal, hdr, bandname=band)
    nm = NanoMaggies(**{band: 10. ** ((22.5 - mag) / 2.5), other: 1e4})
    for p in (lin, quiet(lin.copy)):
        close(p.brightnessToCounts(nm), counts, 1e-6, 0, 'counts of %g mag' % mag)
        same((p.exptime, p.phot_c, p.phot_k, p.airmass, p.band), (exptime, c, k, airmass, band), 'calibration details')
    cp = quiet(lin.copy)
    cp.setParams([cp.getParams()[0] * 3.])
    close(cp.brightnessToCounts(nm), 3 * counts, 1e-6, 0, 'counts after scaling a copy')
    close(lin.brightnessToCounts(nm), counts, 1e-6, 0, 'counts after scaling a copy of it')
    m = quiet(CfhtPhotoCal, hdr, bandname=band)
    mg = Mags(**{band: mag, other: 3.})
    hk = m.hashkey()
    for p in (m, quiet(m.copy)):
        close(p.brightnessToCounts(mg), counts, 1e-6, 0, 'counts of %g mag' % mag)
        same(p.hashkey(), hk, 'hash key')
        same([list(p.getParams()), p.numberOfParams(), p.getParamNames(), len(p.getStepSizes())], [[c], 1, ['phot_c'], 1], 'parameters')
    cp = quiet(m.copy)
    cp.setParam(0, c + 1.)
    close(cp.brightnessToCounts(mg), counts * 10 ** .4, 1e-6, 0, 'counts with a zeropoint one higher')
    expect(cp.hashkey() != hk, 'hash key changes with the parameter')
    close(m.brightnessToCounts(mg), counts, 1e-6, 0, 'the original')
    cp.setParams([c])
    same(cp.hashkey(), hk, 'hash key restored')


def chunk(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def shard(ck, job):
    kind, items = job
    if kind == 'interp':
        ck.section('interpolation', 'every map of a small shape over 2-4 values (gaps included) x positions on a quarter-pixel grid out to the half-pixel border')
        for sh, v, st in items:
            ck.case('%s:%s' % (sh, v), lambda: ck.step(case_interp(sh, v, st)))
    elif kind == 'sky':
        ck.section('sky', 'maps x ways to find them x grid of Galactic longitudes and latitudes, plane and poles included')
        for m, how, ls, bs in items:
            ck.case('%s:%s:%g..%g' % (m, how, ls[0], bs[0]), lambda: ck.step(case_sky(m, how, ls, bs)))
    elif kind == 'missing':
        ck.section('missing-files', 'subsets of the map files')
        for h in items:
            ck.case(str(h), case_missing, h)
    elif kind == 'head':
        ck.section('cfht-headers', 'all files of up to 3 headers over card sets x final END x padding')
        for a in items:
            ck.case('%s:%s:%s:%s' % a, case_head, *a)
    else:
        ck.section('cfht-calibration', 'exposure x zeropoint x extinction x airmass x band x magnitude')
        for a in items:
            ck.case(':'.join(map(str, a)), case_cfht, *a)


def run(ck):
    th = ck.thorough
    ck.assumptions += ['synthetic maps with the projection of the SFD maps (GLON-ZEA/GLAT-ZEA), 64 pixels instead of 4096']
    it = [((2, 2), v, .25) for v in itertools.product((0., 1., 2.5, 7.), repeat=4)]
    it += [((1, 1), (v,), .25) for v in (0., 3.)]
    it += [(s, v, .25) for s in ((1, 3), (3, 1)) for v in itertools.product((0., 1., 2.5, 7.), repeat=3)]
    it += [((3, 3), tuple(a * (i + 1.) for i, a in enumerate(v)), .25) for v in itertools.product((0, 1), repeat=9)]
    it += [((2, 3), tuple(a * (i + 1.) for i, a in enumerate(v)), .125) for v in itertools.product((0, 1), repeat=6)]
    if th:
        it += [((3, 3), v, .25) for v in itertools.product((0., 1., 4.), repeat=9)]
    jobs = [('interp', c) for c in chunk(it, 8)]
    st = 2.5 if th else 5.
    ls = np.arange(0., 360., st)
    edge = np.array([89., 90., 91., 179., 180., 181., 269., 270., 271., 359.9, .1])
    bs = np.concatenate([np.arange(-90., 90.1, st), [-.001, .001, -.3, .3, -1., 1., 89.9, -89.9]])
    bs = bs[bs != 0]
    sk = []
    for m in ('ramp', 'texture', 'one-sided'):
        for how in ('files', 'dir', 'env', 'both'):
            if m != 'one-sided':
                for l in np.array_split(ls, 3):
                    sk.append((m, how, l, bs))
                sk.append((m, how, edge, bs))
            else:
                # (away from the jumps)
                sk.append((m, how, np.arange(12., 360., 30.), np.array([-80., -60., -.01, .01, 1., 30., 77.])))
    jobs += [('sky', c) for c in chunk(sk, 8)]
    jobs.append(('missing', list(itertools.product((True, False), repeat=2))))
    bl = ['', 'f', 'is', 'fisn', 'cf', 'c']
    hd = [(b, e, p, n) for k in range(0, 4 if th else 3) for b in itertools.product(bl, repeat=k) for e in (True, False) for p in (True, False) for n in (True, False)]
    jobs += [('head', c) for c in chunk(hd, 2)]
    cf = list(itertools.product((1., 600.), (24., 26.5), (-.1, 0., .2), (1., 1.7), ('r', 'MegaCam'), (-2., 15., 22.5, 30.)))
    jobs.append(('cfht', cf))
    ck.shards(jobs, shard)
