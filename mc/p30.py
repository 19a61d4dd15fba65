"""
P30: survey catalogues become the sources they describe.  A table holding the
product of all object kinds is turned into sources under the options of the
SDSS reader (and every table of at most two rows, under every selection), and
compared source by source with what the row says; the CAS form of the same
table gives the same sources; SourceExtractor model-fit tables likewise.
"""
import contextlib
import io
import itertools
import numpy as np
from mc.core import expect, fail, close, same

BANDS = ['u', 'g', 'r', 'i', 'z']
BRIGHT = 2


def lcg(i, a, b):
    return a + (b - a) * ((i * 2654435761 + 12345) % 100003) / 100003.


KINDS = dict(
    psf=(0., 1., .5),       # prob_psf
    frac=(0., 1., .3),      # fracdev
    typ=(3, 6, 0),          # objc_type
    nchild=(0, 2),
    flags=(0, BRIGHT, 4, BRIGHT | 16),
    resolve=(0, 256, 257, 513, 768),
    theta=(0., 2.),
    sign=(1, -1, 0),
)
NAMES = list(KINDS)


def kinds(full):
    if full:
        return list(itertools.product(*[KINDS[k] for k in NAMES]))
    out = []
    base = dict(psf=0., frac=.3, typ=3, nchild=0, flags=0, resolve=256, theta=2., sign=1)
    for psf, frac, typ in itertools.product(KINDS['psf'], KINDS['frac'], KINDS['typ']):
        for k in ('nchild', 'flags', 'resolve', 'theta', 'sign'):
            for v in KINDS[k]:
                d = dict(base, psf=psf, frac=frac, typ=typ)
                d[k] = v
                out.append(tuple(d[n] for n in NAMES))
    return list(dict.fromkeys(out))


def build(rows, spread=1.):
    """photoObj-like table; the per-band columns all differ from band to band."""
    from astrometry.util.fits import tabledata
    N = len(rows)
    T = tabledata()
    T.ra = np.array([10. + spread * lcg(i, -.01, .01) for i in range(N)])
    T.dec = np.array([20. + spread * lcg(i + 7, -.01, .01) for i in range(N)])
    b = np.arange(5)
    R = [dict(zip(NAMES, r)) for r in rows]

    def per(f):
        return np.array([[f(i, r, j) for j in b] for i, r in enumerate(R)]).reshape(N, 5)
    # (some lie exactly on the edges of the region (20, 70, 10, 60) in the r band)
    T.colc = per(lambda i, r, j: {3: 68., 5: 18.}.get(i % 11, lcg(i + 31, 0, 100)) + j)
    T.rowc = per(lambda i, r, j: {4: 62., 6: 12.}.get(i % 11, lcg(i + 57, 0, 80)) - j)
    T.nchild = np.array([r['nchild'] for r in R], int)
    T.objc_flags = np.array([r['flags'] for r in R], int)
    T.objc_type = np.array([r['typ'] for r in R], int)
    T.resolve_status = np.array([r['resolve'] for r in R], int)
    # the catalogued kind is that of the r band; the others differ from it
    T.prob_psf = per(lambda i, r, j: r['psf'] if j == 2 else KINDS['psf'][(i + j) % 3])
    T.fracdev = per(lambda i, r, j: r['frac'] if j == 2 else (0., .25 + .1 * j, 1., .6, .1)[(i + j) % 5])
    for k, o in (('dev', 1.), ('exp', 1.7)):
        T.set('phi_%s_deg' % k, per(lambda i, r, j: lcg(i + 5 * j + int(10 * o), -80, 170)))
        T.set('theta_%s' % k, per(lambda i, r, j: r['theta'] * lcg(i + 3 * j + int(20 * o), .5, 2.) + (.001 * j if r['theta'] == 0 else 0)))
        T.set('ab_%s' % k, per(lambda i, r, j: lcg(i + 2 * j + int(30 * o), .2, 1.)))
    for n, k in enumerate(('psfflux', 'cmodelflux', 'devflux', 'expflux')):
        T.set(k, per(lambda i, r, j: (r['sign'] if (i + j) % 2 == 0 else 1) * lcg(i + 11 * j + 100 * n, 1., 50.)))
    return T


def want_bright(flux, o, bandnum):
    bands = BANDS if o['bands'] is None else o['bands']
    extra = o['extra'] or []
    d = {}
    for bn in bands:
        f = flux[BANDS.index(bn)]
        if o['nano']:
            d[bn] = f
        else:
            d[bn] = 22.5 - 2.5 * np.log10(f) if f > 0 else o['badmag']
    for e in extra:
        # (values of the additional bands are only stated when they are the only ones)
        d[e] = flux[bandnum] if (o['nano'] and not bands) else None
    return d


def expected(T, o):
    """list of (row index, spec) for an unaltered table"""
    bn = BANDS.index(o['band'])
    out = []
    for i in range(len(T)):
        if o['roi'] is not None:
            x0, x1, y0, y1 = o['roi']
            x, y = T.colc[i, bn], T.rowc[i, bn]
            if not (x0 <= x < x1 and y0 <= y < y1):
                continue
        if o['radecroi'] is not None:
            r0, r1, d0, d1 = o['radecroi']
            if not (r0 <= T.ra[i] <= r1 and d0 <= T.dec[i] <= d1):
                continue
        if o['radecrad'] is not None:
            r, d, rad = o['radecrad']
            a, b = np.deg2rad([T.ra[i], T.dec[i]]), np.deg2rad([r, d])
            c = np.sin(a[1]) * np.sin(b[1]) + np.cos(a[1]) * np.cos(b[1]) * np.cos(a[0] - b[0])
            if np.rad2deg(np.arccos(min(c, 1.))) > rad:
                continue
        if o['cuts'] and (T.nchild[i] != 0 or T.objc_flags[i] & BRIGHT):
            continue
        if o['primary'] and not (T.resolve_status[i] & 256):
            continue
        star = gal = False
        if o['force']:
            star = True
        elif o['useobjc']:
            star, gal = T.objc_type[i] == 6, T.objc_type[i] == 3
        else:
            star, gal = T.prob_psf[i, bn] == 1, T.prob_psf[i, bn] == 0
        if star:
            out.append((i, ('star', want_bright(T.psfflux[i], o, bn))))
            continue
        if not gal:
            continue
        fd = T.fracdev[i, bn]
        sh = {}
        for k in ('dev', 'exp'):
            sh[k] = (max(T.get('theta_' + k)[i, bn], 1. / 30), T.get('ab_' + k)[i, bn], -T.get('phi_%s_deg' % k)[i, bn])
        if fd == 1:
            out.append((i, ('dev', want_bright(T.devflux[i], o, bn), sh['dev'])))
        elif fd == 0:
            out.append((i, ('exp', want_bright(T.expflux[i], o, bn), sh['exp'])))
        elif o['fixed']:
            out.append((i, ('fixed', want_bright(T.cmodelflux[i], o, bn), fd, sh['exp'], sh['dev'])))
        else:
            out.append((i, ('comp', want_bright(T.cmodelflux[i] * (1. - fd), o, bn), sh['exp'], want_bright(T.cmodelflux[i] * fd, o, bn), sh['dev'])))
    return out


def check_bright(br, want, o):
    from tractor import NanoMaggies, Mags
    same(type(br) is (NanoMaggies if o['nano'] else Mags), True, 'brightness class %s' % type(br))
    same(sorted(br.order), sorted(want), 'bands')
    for k, v in want.items():
        got = getattr(br, k)
        if v is None:
            expect(np.isfinite(got), 'finite value in additional band %s' % k)
        else:
            close(got, v, 1e-7, 1e-7, 'brightness in ' + k)


def check_shape(s, want, o):
    re, ab, phi = want
    if o['ellipse'] == 'galshape':
        close([s.re, s.ab, s.phi], [re, ab, phi], 1e-9, 1e-9, 'shape')
        return
    e = (1 - ab) / (1 + ab)
    t = np.deg2rad(-2. * phi)
    if o['ellipse'] == 'soft':
        ee = -np.log(1. - e)
        close(s.getAllParams(), [np.log(re), ee * np.cos(t), ee * np.sin(t)], 1e-6, 1e-8, 'ellipse')
    else:
        close(s.getAllParams(), [re, e * np.cos(t), e * np.sin(t)], 1e-6, 1e-8, 'ellipse')


def _galshape():
    from tractor.galaxy import GalaxyShape
    return GalaxyShape


def _e():
    from tractor.ellipses import EllipseE
    return EllipseE.fromRAbPhi


def _soft():
    from tractor.ellipses import EllipseESoft
    return EllipseESoft.fromRAbPhi


ELL = dict(galshape=_galshape, ellipsee=_e, soft=_soft)


def check_source(src, T, i, spec, o, ptcls):
    from tractor.galaxy import DevGalaxy, ExpGalaxy, CompositeGalaxy, FixedCompositeGalaxy
    kind = spec[0]
    cls = dict(star=ptcls, dev=DevGalaxy, exp=ExpGalaxy, comp=CompositeGalaxy, fixed=FixedCompositeGalaxy)[kind]
    expect(type(src) is cls, 'row %i should be %s, is %s' % (i, cls.__name__, type(src).__name__))
    same((src.pos.ra, src.pos.dec), (T.ra[i], T.dec[i]), 'position of row %i' % i)
    if kind == 'comp':
        check_bright(src.brightnessExp, spec[1], o)
        check_shape(src.shapeExp, spec[2], o)
        check_bright(src.brightnessDev, spec[3], o)
        check_shape(src.shapeDev, spec[4], o)
        return
    check_bright(src.brightness, spec[1], o)
    if kind in ('dev', 'exp'):
        check_shape(src.shape, spec[2], o)
    elif kind == 'fixed':
        close(src.fracDev.getValue(), spec[2], 1e-9, 1e-12, 'fraction of dev')
        check_shape(src.shapeExp, spec[3], o)
        check_shape(src.shapeDev, spec[4], o)


DEF = dict(band='r', bands=None, nano=True, extra=None, fixed=False, force=False, useobjc=False, cuts=True, primary=False,
           ellipse='galshape', roi=None, radecroi=None, radecrad=None, badmag=25, cls='ps', rel=9)

_DR = {}


def release(n):
    """(reading the run list of a release takes a while)"""
    if n not in _DR:
        from astrometry.sdss import DR8, DR9
        _DR[n] = (DR8 if n == 8 else DR9)()
    return _DR[n]


def call(T, o, **extra):
    from tractor.sdss import get_tractor_sources_dr8, get_tractor_sources_dr9, SdssPointSource
    from tractor import PointSource
    kw = dict(bandname=o['band'], nanomaggies=o['nano'], extrabands=None if o['extra'] is None else list(o['extra']), fixedComposites=o['fixed'], forcePointSources=o['force'],
              useObjcType=o['useobjc'], objCuts=o['cuts'], cutToPrimary=o['primary'], ellipse=ELL[o['ellipse']](),
              roi=o['roi'], radecroi=o['radecroi'], radecrad=o['radecrad'], badmag=o['badmag'], sdss=release(o['rel']))
    if o['bands'] is not None:
        kw['bands'] = list(o['bands'])
    pt = PointSource
    if o['cls'] == 'sdss':
        pt = SdssPointSource
        kw['classmap'] = {PointSource: SdssPointSource}
    kw.update(extra)
    with contextlib.redirect_stdout(io.StringIO()):
        f = get_tractor_sources_dr8 if o['rel'] == 8 else get_tractor_sources_dr9
        return f(1, 2, 3, objs=T, **kw), pt


def compare(T0, got, o, pt, inds=None):
    want = expected(T0, o)
    same(len(got), len(want), 'number of sources')
    if o['radecrad'] is not None:
        # order is that of the match: go by position
        key = {(T0.ra[i], T0.dec[i]): k for k, (i, s) in enumerate(want)}
        order = []
        for s in got:
            expect((s.pos.ra, s.pos.dec) in key, 'unexpected source at %s' % s.pos)
            order.append(key[(s.pos.ra, s.pos.dec)])
        same(sorted(order), list(range(len(want))), 'sources')
        want = [want[k] for k in order]
    for src, (i, spec) in zip(got, want):
        check_source(src, T0, i, spec, o, pt)
    if inds is not None:
        same([int(i) for i in inds], [i for i, s in want], 'indices of the objects')
    return want


def case_table(ck, rows, o, spread=1.):
    T0 = build(rows, spread)
    o = dict(DEF, **dict(o))
    got, pt = call(T0.copy(), o)
    compare(T0, got, o, pt)
    ck.step(len(got))


def case_outputs(ck, rows, o, flags):
    """every combination of the extra return values"""
    T0 = build(rows)
    o = dict(DEF, **dict(o))
    kw = dict(zip(('getobjs', 'getobjinds', 'getsourceobjs'), flags))
    got, pt = call(T0.copy(), o, **kw)
    if not any(flags):
        compare(T0, got, o, pt)
        return
    got = list(got)
    same(len(got), 1 + sum(flags), 'number of results')
    srcs = got.pop(0)
    want = compare(T0, srcs, o, pt)
    n = len(want)
    if flags[0]:
        a = got.pop(0)
        if a is not None:
            same(len(a), len(T0), 'all objects')
            same(a.ra.tolist(), T0.ra.tolist(), 'all objects: positions')
            same(a.phi_dev_deg.tolist(), T0.phi_dev_deg.tolist(), 'all objects: angles')
        else:
            expect(n == 0, 'all objects missing')
    if flags[1]:
        a = got.pop(0)
        if a is None:
            expect(n == 0, 'indices missing')
        else:
            same([int(i) for i in a], [i for i, s in want], 'indices')
    if flags[2]:
        a = got.pop(0)
        if a is None:
            expect(n == 0, 'source objects missing')
        else:
            same(len(a), n, 'source objects')
            if n:
                same(a.ra.tolist(), [T0.ra[i] for i, s in want], 'source objects: positions')


CASCOL = [('phi_dev_deg', 'devphi'), ('phi_exp_deg', 'expphi'), ('theta_dev', 'devrad'), ('theta_exp', 'exprad'), ('ab_dev', 'devab'),
          ('ab_exp', 'expab'), ('psfflux', 'psfflux'), ('cmodelflux', 'cmodelflux'), ('devflux', 'devflux'), ('expflux', 'expflux'),
          ('fracdev', 'fracdev'), ('prob_psf', 'probpsf')]


def case_cas(rows, o, cols, hasbands):
    """the same objects as a CAS table: one column per quantity and band"""
    from tractor.sdss import get_tractor_sources_cas_dr9
    from tractor import PointSource
    from astrometry.util.fits import tabledata
    T0 = build(rows)
    o = dict(DEF, **dict(o))
    C = tabledata()
    C.ra, C.dec = T0.ra, T0.dec
    if cols:
        C.nchild, C.objc_flags = T0.nchild, T0.objc_flags
    else:
        T0.nchild[:] = 0
        T0.objc_flags[:] = 0
    for a, b in CASCOL:
        for j, bn in enumerate(BANDS):
            if bn in hasbands:
                C.set('%s_%s' % (b, bn), T0.get(a)[:, j].copy())
            else:
                T0.get(a)[:, j] = 0
    with contextlib.redirect_stdout(io.StringIO()):
        got = get_tractor_sources_cas_dr9(C, bandname=o['band'], bands=o['bands'], extrabands=o['extra'], nanomaggies=o['nano'])
    compare(T0, got, o, PointSource)


def case_se(grid, maglim, bands):
    from tractor.source_extractor import get_se_modelfit_cat
    from tractor.galaxy import DevGalaxy, ExpGalaxy, FixedCompositeGalaxy
    from tractor import PointSource
    from astrometry.util.fits import tabledata
    T = tabledata()
    N = len(grid)
    T.ra = np.array([10. + .001 * i for i in range(N)])
    T.dec = np.array([20. - .002 * i for i in range(N)])
    T.alphamodel_j2000 = T.ra + 1e-4
    T.deltamodel_j2000 = T.dec - 2e-4
    g = np.array(grid, float)
    for k, c in zip(('chi2_psf', 'chi2_model', 'mag_psf', 'mag_disk', 'mag_spheroid'), g.T):
        T.set(k, c)
    for j, k in enumerate(('spheroid_reff_world', 'disk_scale_world')):
        T.set(k, np.array([lcg(i + j, .5, 3.) / 3600. for i in range(N)]))
    for j, k in enumerate(('spheroid_aspect_world', 'disk_aspect_world')):
        T.set(k, np.array([lcg(i + 20 + j, .3, 1.) for i in range(N)]))
    for j, k in enumerate(('spheroid_theta_world', 'disk_theta_world')):
        T.set(k, np.array([lcg(i + 40 + j, -90, 90) for i in range(N)]))
    kw = {} if bands is None else dict(bands=list(bands))
    cat, inds = get_se_modelfit_cat(T, maglim=maglim, **kw)
    bands = BANDS if bands is None else bands
    want = []
    for i in range(N):
        cp, cm, mp, md, ms = g[i]
        nm = lambda m: 10. ** ((22.5 - m) / 2.5)
        if cp < cm and mp <= maglim:
            want.append((i, PointSource, nm(mp)))
        elif md > maglim and ms > maglim:
            pass
        elif md > maglim:
            want.append((i, DevGalaxy, nm(ms)))
        elif ms > maglim:
            want.append((i, ExpGalaxy, nm(md)))
        else:
            want.append((i, FixedCompositeGalaxy, nm(md) + nm(ms)))
    same([int(x) for x in inds], [w[0] for w in want], 'indices')
    same(len(cat), len(want), 'number of sources')
    for s, (i, cls, flux) in zip(cat, want):
        expect(type(s) is cls, 'row %i: %s, should be %s' % (i, type(s).__name__, cls.__name__))
        for b in bands:
            close(getattr(s.brightness, b), flux, 1e-7, 0, 'flux')
        same(sorted(s.brightness.order), sorted(bands), 'bands')
        if cls is PointSource:
            same((s.pos.ra, s.pos.dec), (T.ra[i], T.dec[i]), 'position')
            continue
        same((s.pos.ra, s.pos.dec), (T.alphamodel_j2000[i], T.deltamodel_j2000[i]), 'position')
        dev = (T.spheroid_reff_world[i] * 3600, T.spheroid_aspect_world[i], T.spheroid_theta_world[i] + 90.)
        exp = (T.disk_scale_world[i] * 3600 * 1.68, T.disk_aspect_world[i], T.disk_theta_world[i] + 90.)
        if cls is DevGalaxy:
            close(s.shape.getAllParams(), dev, 1e-9, 1e-9, 'shape')
        elif cls is ExpGalaxy:
            close(s.shape.getAllParams(), exp, 1e-9, 1e-9, 'shape')
        else:
            close(s.shapeDev.getAllParams(), dev, 1e-9, 1e-9, 'dev shape')
            close(s.shapeExp.getAllParams(), exp, 1e-9, 1e-9, 'exp shape')
            close(s.fracDev.getValue(), 10. ** ((22.5 - g[i][4]) / 2.5) / flux, 1e-7, 0, 'dev fraction')


OPT = dict(
    band=('r', 'g', 'z'),
    bands=(None, ('r',), ('z', 'g'), ()),
    nano=(True, False),
    extra=(None, ('W1',), ('W1', 'W2')),
    fixed=(False, True),
    force=(False, True),
    useobjc=(False, True),
    cuts=(True, False),
    primary=(False, True),
    ellipse=('galshape', 'ellipsee', 'soft'),
    roi=(None, (20, 70, 10, 60)),
    radecroi=(None, (9.995, 10.004, 19.994, 20.006)),
    radecrad=(None, (10.001, 20.002, .006)),
    badmag=(25, 30.5),
    cls=('ps', 'sdss'),
    rel=(9, 8),
)


def valid(o):
    o = dict(DEF, **o)
    # no bands at all needs additional bands (in nanomaggies) to have a brightness
    if o['bands'] == () and not (o['extra'] and o['nano']):
        return False
    return True


def options(depth):
    out = [{}]
    for d in range(1, depth + 1):
        for ks in itertools.combinations(sorted(OPT), d):
            for vs in itertools.product(*[[v for v in OPT[k] if v != DEF[k]] for k in ks]):
                out.append(dict(zip(ks, vs)))
    return [o for o in out if valid(o)]


def chunk(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def okey(o):
    return ','.join('%s=%s' % kv for kv in sorted(o.items())).replace(' ', '')


def shard(ck, job):
    kind, items = job
    if kind == 'table':
        rows = kinds(False)
        ck.section('sdss-tables', 'all combinations of up to %i of 16 options on a table of every kind of object' % (4 if ck.thorough else 3))
        for o in items:
            ck.case('table:' + okey(o), case_table, ck, rows, o)
    elif kind == 'small':
        ck.section('sdss-small-tables', 'every table of one and two rows of the kinds x selections x results asked for')
        for rows, o, fl in items:
            ck.case('small:%s:%s:%s' % ('+'.join('/'.join(str(x) for x in r) for r in rows), okey(o), ''.join(str(int(f)) for f in fl)), case_outputs, ck, rows, o, fl)
    elif kind == 'big':
        ck.section('sdss-full-product', 'the full product of the object kinds')
        for o in items:
            ck.case('big:' + okey(o), case_table, ck, kinds(True), o)
    elif kind == 'cas':
        ck.section('cas-tables', 'the same objects in CAS form x bands present')
        for o, cols, hb in items:
            ck.case('cas:%s:%s:%s' % (okey(o), cols, ''.join(hb)), case_cas, kinds(False), o, cols, hb)
    elif kind == 'se':
        ck.section('sextractor-tables', 'all orderings of fit quality and magnitudes around the limit')
        for lim, bands in items:
            m = (lim - 3., lim - .5, lim, lim + .5)
            grid = [(a, b, p, d, s) for a, b in ((1., 2.), (2., 1.), (1., 1.)) for p in m for d in m for s in m]
            ck.case('se:%s:%s' % (lim, bands), case_se, grid, lim, bands)
            ck.case('se-one:%s:%s' % (lim, bands), lambda: [case_se([g], lim, bands) for g in grid])


def run(ck):
    ck.assumptions += ['tables follow the photoObj / CAS / SourceExtractor column conventions; positions are distinct',
                       'values given to additional bands are claimed only when no survey band is asked for (nanomaggies)']
    release(8), release(9)
    jobs = []
    for c in chunk(options(4 if ck.thorough else 3), 8):
        jobs.append(('table', c))
    reps = [(1., .3, 6, 0, 0, 256, 2., 1), (0., 0., 3, 0, 0, 256, 0., 1), (0., 1., 3, 0, 0, 0, 2., -1), (0., .3, 3, 0, 0, 257, 2., 1), (.5, .3, 0, 0, 0, 256, 2., 1),
            (1., 0., 6, 2, 0, 256, 2., 1), (0., .3, 3, 0, BRIGHT, 256, 2., 0)]
    tables = [(r,) for r in reps] + list(itertools.product(reps, repeat=2))
    if ck.thorough:
        tables += list(itertools.product(reps, repeat=3))
    sel = [{}, dict(useobjc=True), dict(primary=True), dict(roi=(20, 70, 10, 60)), dict(cuts=False), dict(force=True),
           dict(roi=(5000, 5001, 0, 1), radecrad=(10.001, 20.002, .006))]
    small = [(t, o, fl) for t in tables for o in sel for fl in itertools.product((False, True), repeat=3)]
    for c in chunk(small, 8):
        jobs.append(('small', c))
    for c in chunk(options(1), 4) if ck.thorough else [[{}], [dict(useobjc=True, fixed=True)], [dict(band='g', primary=True)]]:
        jobs.append(('big', c))
    cas = [(dict(o), cols, hb) for o in ({}, dict(band='g'), dict(nano=False), dict(bands=('r', 'i')), dict(bands=('r',), extra=('W1',)))
           for cols in (True, False) for hb in (tuple(BANDS), ('g', 'r'), ('r',))]
    cas = [(dict(o, bands=list(o['bands']) if 'bands' in o else None, extra=list(o['extra']) if 'extra' in o else None), c, h) for o, c, h in cas]
    jobs += [('cas', c) for c in chunk(cas, 3)]
    jobs.append(('se', [(25, None), (25, ('r',)), (22.5, ('g', 'W1')), (20, None)]))
    ck.shards(jobs, shard)
