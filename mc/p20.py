"""
P20: photometric calibration.  Counts, magnitudes, nanomaggies and zeropoints
are related by the same formulas through every brightness / calibration class;
band-wise arithmetic and every history of band edits act on the named band only.
"""
import math
import itertools
import numpy as np
from mc.core import expect, fail, close, same


def mag2nmgy(m):
    return 10.**(-.4 * (m - 22.5))


def lincounts(scale, flux):
    import tractor as T
    from tractor.brightness import LinearPhotoCal, NullPhotoCal, FluxesPhotoCal, Fluxes, NanoMaggies
    from tractor.shifted import ScaledPhotoCal
    f = T.Flux(flux)
    close(NullPhotoCal().brightnessToCounts(f), flux, 1e-12, 0, 'NullPhotoCal')
    close(LinearPhotoCal(scale).brightnessToCounts(f), flux * scale, 1e-12, 0, 'LinearPhotoCal')
    close(LinearPhotoCal(scale).getScale(), scale, 0, 0, 'getScale')
    for order in (['g', 'r', 'z'], ['z', 'g', 'r']):
        vals = dict(g=flux, r=2. * flux + 1., z=-3. * flux)
        for cls in (Fluxes, NanoMaggies):
            b = cls(order=order, **vals)
            same(list(b.getParams()), [vals[k] for k in order], 'parameter order')
            same(list(b.getParamNames()), list(order), 'parameter names')
            for band in 'grz':
                close(LinearPhotoCal(scale, band=band).brightnessToCounts(b), vals[band] * scale, 1e-12, 0, 'LinearPhotoCal(%s)' % band)
                close(FluxesPhotoCal(band).brightnessToCounts(b), vals[band], 1e-12, 0, 'FluxesPhotoCal(%s)' % band)
                for k in (.25, 3.):
                    close(ScaledPhotoCal(LinearPhotoCal(scale, band=band), k).brightnessToCounts(b), k * vals[band] * scale, 1e-12, 0, 'ScaledPhotoCal')
                    close(ScaledPhotoCal(FluxesPhotoCal(band), k).brightnessToCounts(b), k * vals[band], 1e-12, 0, 'ScaledPhotoCal')
            same(list(b.getParams()), [vals[k] for k in order], 'brightness after the calls')


def magcounts(zp, mag):
    """the same object, described by magnitudes or by nanomaggies, has the same counts"""
    from tractor.brightness import Mags, MagsPhotoCal, LinearPhotoCal, NanoMaggies
    from tractor.shifted import ScaledPhotoCal
    want = 10.**(.4 * (zp - mag)) if np.isfinite(mag) and mag <= 50. else 0.
    for order in (['g', 'r'], ['r', 'g']):
        b = Mags(order=order, g=mag, r=21.)
        pc = MagsPhotoCal('g', zp)
        close(pc.brightnessToCounts(b), want, 1e-9, 0, 'MagsPhotoCal')
        close(MagsPhotoCal('r', zp).brightnessToCounts(b), 10.**(.4 * (zp - 21.)), 1e-9, 0, 'MagsPhotoCal(r)')
        close(ScaledPhotoCal(pc, 2.5).brightnessToCounts(b), 2.5 * want, 1e-9, 0, 'ScaledPhotoCal')
        if want > 0:
            close(pc.countsToMag(want), mag, 1e-9, 0, 'countsToMag')
            n = NanoMaggies.fromMag(b)
            same(list(n.getParamNames()), list(order), 'fromMag order')
            close(n.getFlux('g'), mag2nmgy(mag), 1e-9, 0, 'fromMag flux')
            close(n.getMag('g'), mag, 1e-9, 1e-9, 'getMag')
            close(n.getMag('r'), 21., 1e-9, 1e-9, 'getMag(r)')
            sc = NanoMaggies.zeropointToScale(zp)
            close(LinearPhotoCal(sc, band='g').brightnessToCounts(n), want, 1e-9, 0, 'nanomaggies through the zeropoint scale')
            close(NanoMaggies.scaleToZeropoint(sc), zp, 1e-9, 1e-9, 'scaleToZeropoint')
            close(NanoMaggies.magToNanomaggies(mag), mag2nmgy(mag), 1e-9, 0, 'magToNanomaggies')
            close(NanoMaggies.nanomaggiesToMag(mag2nmgy(mag)), mag, 1e-9, 1e-9, 'nanomaggiesToMag')


ERR = [(100., 4.), (.5, 1e-2), (0., 1.), (-3., 4.), (7., 0.), (-2., 0.)]


def magerrs(rows, scalar):
    from tractor.brightness import NanoMaggies
    f = np.array([ERR[i][0] for i in rows])
    iv = np.array([ERR[i][1] for i in rows])
    f0, iv0 = f.copy(), iv.copy()
    m, dm = NanoMaggies.fluxErrorsToMagErrors(float(f[0]) if scalar else f, float(iv[0]) if scalar else iv)
    expect(np.array_equal(f, f0) and np.array_equal(iv, iv0), 'arguments changed')
    m, dm = np.atleast_1d(m), np.atleast_1d(dm)
    same((len(m), len(dm)), (len(rows), len(rows)), 'lengths')
    for k, (ff, vv) in enumerate(zip(f, iv)):
        if ff > 0:
            close(float(m[k]), 22.5 - 2.5 * math.log10(ff), 1e-6, 1e-6, 'mag[%d]' % k)
        else:
            expect(np.isnan(m[k]), 'mag[%d]=%r for a flux of %g' % (k, m[k], ff))
        if ff > 0 and vv > 0:
            close(float(dm[k]), 2.5 / math.log(10.) / math.sqrt(vv) / ff, 1e-5, 0, 'dmag[%d]' % k)
        else:
            expect(np.isnan(dm[k]), 'dmag[%d]=%r' % (k, dm[k]))


# ------------------------------------------------------------------ histories over band objects
BANDS = 'grz'


def vals0(kind):
    return dict(g=21., r=20.5, z=19.) if kind == 'Mags' else dict(g=3., r=-2., z=50.)


def make(kind, order):
    from tractor import brightness as B
    return getattr(B, kind)(order=list(order), **vals0(kind))


def addm(a, b):
    return -2.5 * math.log10(10.**(-.4 * a) + 10.**(-.4 * b))


def ops(kind):
    M = kind == 'Mags'
    o = []
    other_v = dict(g=22., r=20., z=23.) if M else dict(g=1., r=7., z=-4.)

    def other(rev):
        from tractor import brightness as B
        return getattr(B, kind)(order=list('zrg') if rev else list('grz'), **other_v)

    def add(rev):
        def f(b, v):
            q = other(rev)
            r = b + q
            same([q.getBand(k) for k in BANDS], [other_v[k] for k in BANDS], 'right operand')
            return r, dict((k, addm(v[k], other_v[k]) if M else v[k] + other_v[k]) for k in v)
        return f
    o += [('+other', add(False)), ('+reordered', add(True))]
    if M:
        o.append(('+0.3', lambda b, v: (b + .3, dict((k, x + .3) for k, x in v.items()))))
    for fac in (2.5, .1) + ((-3.,) if M else (-1., 0.)):
        def mul(b, v, fac=fac):
            return b * fac, dict((k, x - 2.5 * math.log10(abs(fac)) if M else x * fac) for k, x in v.items())
        o.append(('*%g' % fac, mul))
    o.append(('copy', lambda b, v: (b.copy(), dict(v))))

    def setter(how, band, val):
        def f(b, v):
            v = dict(v)
            if how == 'setBand':
                b.setBand(band, val)
            elif how == 'attr':
                setattr(b, band, val)
            elif how == 'named':
                b.setMag(band, val) if M else b.setFlux(band, val)
            elif how == 'param':
                nm = b.getParamNames()
                if band not in nm:
                    return b, v
                b.setParam(nm.index(band), val)
            v[band] = val
            return b, v
        return f
    o += [('setBand r', setter('setBand', 'r', 18.)), ('.g=', setter('attr', 'g', 17.)), ('set named z', setter('named', 'z', 16.)),
          ('setParam g', setter('param', 'g', 15.)), ('setParam z', setter('param', 'z', 14.))]

    def frz(band):
        def f(b, v):
            b.freezeParam(band)
            return b, v
        return f

    def thaw(b, v):
        b.thawAllParams()
        return b, v

    def pick(b, v):
        import pickle
        return pickle.loads(pickle.dumps(b)), dict(v)
    o += [('freeze g', frz('g')), ('freeze r', frz('r')), ('thaw', thaw), ('pickle', pick)]
    return o


def check(kind, b, v, order, what):
    from tractor import brightness as B
    same(type(b).__name__, kind, what + ': class')
    same(list(b.order), list(order), what + ': order')
    for k in BANDS:
        close(b.getBand(k), v[k], 1e-9, 1e-9, '%s: band %s' % (what, k))
        close(getattr(b, k), v[k], 1e-9, 1e-9, '%s: attribute %s' % (what, k))
        if kind == 'Mags':
            close(b.getMag(k), v[k], 1e-9, 1e-9, '%s: getMag(%s)' % (what, k))
            close(B.MagsPhotoCal(k, 24.).brightnessToCounts(b), 10.**(.4 * (24. - v[k])), 1e-8, 0, '%s: counts in %s' % (what, k))
        else:
            close(b.getFlux(k), v[k], 1e-9, 1e-9, '%s: getFlux(%s)' % (what, k))
            close(B.LinearPhotoCal(2., band=k).brightnessToCounts(b), 2. * v[k], 1e-9, 1e-9, '%s: counts in %s' % (what, k))
            if kind == 'NanoMaggies' and v[k] > 0:
                close(b.getMag(k), 22.5 - 2.5 * math.log10(v[k]), 1e-9, 1e-9, '%s: getMag(%s)' % (what, k))
    close(list(b.getAllParams()), [v[k] for k in order], 1e-9, 1e-9, what + ': parameters in order')
    str(b), repr(b)


def histories(ck, kind, order, first, depth):
    O = ops(kind)
    todo = [[first]]
    for d in range(depth - 1):
        todo += [p + [k] for p in todo if len(p) == d + 1 for k in range(len(O))]
    for path in todo:
        names = [O[k][0] for k in path]

        def one():
            b, v = make(kind, order), vals0(kind)
            for k in path:
                b0, v0, fr = b, v, list(b.getParamNames())
                b, v = O[k][1](b, v)
                ck.step(1)
                if b is not b0:
                    check(kind, b0, v0, order, 'the operand of ' + O[k][0])
            check(kind, b, v, order, 'after ' + '; '.join(names))
            ck.state((kind, order) + tuple(round(v[k], 9) for k in BANDS) + tuple(b.getParamNames()))
        ck.case('history %s %s: %s' % (kind, order, '; '.join(names)), one)


def pairs(kind, order, a, b):
    """repeated flux * factor; scalar Flux"""
    import tractor as T
    f = T.Flux(a)
    g = f * b
    close(g.getValue(), a * b, 1e-12, 0, 'Flux * factor')
    close((b * f).getValue(), a * b, 1e-12, 0, 'factor * Flux')
    close(f.getValue(), a, 0, 0, 'operand')
    expect(g is not f and type(g) is type(f), 'type')


def zeropoint_history(ck, path):
    """editing the calibration of an image (value, frozen or not) changes the counts of every source accordingly"""
    import tractor as T
    from tractor.brightness import MagsPhotoCal, Mags, LinearPhotoCal, NanoMaggies
    mpc, lpc = MagsPhotoCal('r', 22.), LinearPhotoCal(3., band='r')
    zp, sc = 22., 3.
    b, n = Mags(r=20., g=19.), NanoMaggies(r=4., g=9.)
    for o in path:
        ck.step(1)
        if o == 'zp':
            zp += .5
            mpc.zp = zp
        elif o == 'zpparam':
            if mpc.numberOfParams():
                zp -= 1.
                mpc.setParams([zp])
        elif o == 'freeze':
            mpc.freezeAllParams()
        elif o == 'thaw':
            mpc.thawAllParams()
        elif o == 'scale':
            sc *= 2.
            lpc.setParams([sc])
        elif o == 'copy':
            m0, l0 = mpc, lpc
            mpc, lpc = mpc.copy(), lpc.copy()
            m0.zp = 1.
            l0.setParams([77.])
        close(mpc.brightnessToCounts(b), 10.**(.4 * (zp - 20.)), 1e-9, 0, 'magnitudes')
        close(mpc.countsToMag(100.), zp - 5., 1e-9, 1e-9, 'countsToMag')
        close(lpc.brightnessToCounts(n), 4. * sc, 1e-9, 0, 'nanomaggies')
        close(lpc.getScale(), sc, 1e-12, 0, 'getScale')
    ck.state((zp, sc, mpc.numberOfParams()))


def rendered(zp, mag, order):
    """a star of that magnitude puts that many counts in an image with that zeropoint, band by band"""
    import tractor as T
    from tractor.brightness import Mags, MagsPhotoCal, LinearPhotoCal, NanoMaggies
    mags = dict(g=mag, r=mag - 1., z=mag + .7)
    ims, want, ims2 = [], [], []
    for i, k in enumerate('grz'):
        z = zp + .3 * i
        for l, pc in ((ims, MagsPhotoCal(k, z)), (ims2, LinearPhotoCal(NanoMaggies.zeropointToScale(z), band=k))):
            l.append(T.Image(data=np.zeros((31, 31), np.float32), inverr=np.ones((31, 31), np.float32),
                             psf=T.NCircularGaussianPSF([1.5], [1.]), photocal=pc, wcs=T.NullWCS(), sky=T.ConstantSky(0.)))
        want.append(10.**(.4 * (z - mags[k])))
    m = Mags(order=list(order), **mags)
    for l, b in ((ims, m), (ims2, NanoMaggies.fromMag(m))):
        tr = T.Tractor(l, [T.PointSource(T.PixPos(15., 15.), b)])
        for i in range(3):
            close(float(tr.getModelImage(i).astype(float).sum()), want[i], 2e-3, 0, 'counts in %s' % 'grz'[i])


def run(ck):
    th = ck.thorough
    ck.section('counts', 'scales x fluxes x band orders x calibration classes; zeropoints x magnitudes')
    for s, f in itertools.product([.01, 1., 37., -2.], [0., 1., -5., 1e5]):
        ck.case('linear %g %g' % (s, f), lincounts, s, f)
        ck.case('flux %g %g' % (s, f), pairs, None, None, f, s)
    for z, m in itertools.product([0., 22.5, 25., 31.2] + ([20., 27.] if th else []), [-1., 15., 22.5, 30., 50., 50.1, 99., np.inf, -np.inf, np.nan]):
        ck.case('mags zp=%g mag=%g' % (z, m), magcounts, z, m)
    n = 4 if th else 3
    ck.section('errors', 'all lists of <=%d of %d (flux, ivar) pairs; scalars' % (n, len(ERR)))
    for k in range(1, n + 1):
        for rows in itertools.product(range(len(ERR)), repeat=k):
            ck.case('errors %s' % (rows,), magerrs, rows, False)
    for i in range(len(ERR)):
        ck.case('errors scalar %d' % i, magerrs, (i,), True)
    depth = 4 if th else 3
    ck.section('band histories', 'all sequences of <=%d operations (arithmetic, copies, edits, freezing, pickling) on Mags, Fluxes, NanoMaggies in 2 orders' % depth)

    def shard(sub, item):
        histories(sub, item[0], item[1], item[2], depth)
    ck.shards([(k, o, f) for k in ('Mags', 'Fluxes', 'NanoMaggies') for o in ('grz', 'zgr') for f in range(len(ops(k)))], shard)
    ck.section('calibration histories', 'all sequences of <=%d edits of zeropoint and scale' % (5 if th else 4))
    for k in range(1, 6 if th else 5):
        for p in itertools.product(['zp', 'zpparam', 'freeze', 'thaw', 'scale', 'copy'], repeat=k):
            ck.case('cal ' + ' '.join(p), zeropoint_history, ck, p)
    ck.section('rendered', 'zeropoints x magnitudes x orders in three bands')
    for z, m, o in itertools.product([22.5, 25.], [18., 21.3], ['grz', 'zgr', 'rzg']):
        ck.case('rendered %g %g %s' % (z, m, o), rendered, z, m, o)
