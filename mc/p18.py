"""
P18: ellipse parameterisations.  Every shape of a grid of (radius, axis ratio,
angle) means the same ellipse in EllipseE, EllipseESoft and GalaxyShape; every
chain of conversions preserves it; softened shapes are legal and finite
everywhere; equivalent shapes render the same galaxy.
"""
import math
import itertools
import numpy as np
from mc import scene
from mc.zoo import dense, tan
from mc.core import expect, fail, close, close_img, same


def ref_cov(r, ba, phi):
    """covariance (arcsec^2) of the ellipse; the major axis lies along (-sin phi, cos phi) in (RA, Dec)"""
    p = math.radians(phi)
    u = np.array([-math.sin(p), math.cos(p)])
    v = np.array([math.cos(p), math.sin(p)])
    return r * r * (np.outer(u, u) + ba * ba * np.outer(v, v))


def cov_of(shape):
    G = np.array(shape.getRaDecBasis()) * 3600.
    return np.dot(G, G.T)


def near(got, want, what, rtol=1e-7):
    sc = np.sqrt(abs(np.linalg.det(want))) if rtol < 1e-6 else np.trace(want)
    tol = rtol * max(np.trace(want), sc)
    if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > tol:
        fail('%s: covariance %s, expected %s' % (what, np.array(got).tolist(), np.array(want).tolist()))


CDS = [np.eye(2) / 3600. * .4, np.array([[-.2, .05], [.03, .25]]) / 3600., np.array([[0., -.3], [.27, .0]]) / 3600.]


def values(r, ba, phi):
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import GalaxyShape
    want = ref_cov(r, ba, phi)
    e = (1. - ba) / (1. + ba)
    shapes = [('EllipseE', EllipseE.fromRAbPhi(r, ba, phi)), ('EllipseESoft', EllipseESoft.fromRAbPhi(r, ba, phi)),
              ('GalaxyShape', GalaxyShape(r, ba, phi))]
    p = EllipseESoft.rAbPhiToESoft(r, ba, phi)
    shapes.append(('EllipseESoft(params)', EllipseESoft(*p)))
    ang = math.radians(-2. * phi)
    shapes.append(('EllipseE(params)', EllipseE(r, e * math.cos(ang), e * math.sin(ang))))
    ee = -math.log(1. - e)
    shapes.append(('EllipseESoft(formula)', EllipseESoft(math.log(r), ee * math.cos(ang), ee * math.sin(ang))))
    for nm, s in shapes:
        before = list(s.getAllParams())
        near(cov_of(s), want, nm)
        close(s.re, r, 1e-9, 1e-12, nm + ' re')
        close(s.ab, ba, 1e-9, 1e-9, nm + ' ab')
        if nm.startswith('Ell'):
            near(s.getCovariance(), want, nm + '.getCovariance')
            close(s.e, e, 1e-9, 1e-9, nm + ' e')
            if ba < 1.:
                d = (math.degrees(s.theta) + phi) % 180.
                expect(min(d, 180. - d) < 1e-6, '%s theta %r for phi=%r' % (nm, s.theta, phi))
            expect(bool(s.isLegal()), nm + ' should be legal')
        if nm.startswith('EllipseESoft'):
            close(s.softe, ee, 1e-9, 1e-9, nm + ' softe')
        for cd in CDS:
            # takes pixels to units of r_e: the pixels on the ellipse have length one
            T = np.array(s.getTensor(cd.copy()))
            for t in (0., .7, 1.9, 3.):
                pt = np.dot(np.linalg.cholesky(want), [math.cos(t), math.sin(t)]) / 3600.
                pix = np.linalg.solve(cd, pt)
                close(float(np.sum(np.dot(T, pix)**2)), 1., 1e-6, 1e-6, nm + ' tensor at angle %g' % t)
        same(list(s.getAllParams()), before, nm + ' parameters after the calls')


# the conversion graph: (name, kinds accepted, function)
def conversions():
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import GalaxyShape
    isE = lambda x: type(x) is EllipseE
    isS = lambda x: type(x) is EllipseESoft
    isG = lambda x: isinstance(x, GalaxyShape)
    isC = lambda x: isinstance(x, np.ndarray)
    ell = lambda x: isE(x) or isS(x)
    phi = lambda x: x.phi if isG(x) else -math.degrees(x.theta)
    nc = lambda x: not isC(x)
    return [
        ('E->S', isE, EllipseESoft.fromEllipseE),
        ('S->E', isS, EllipseE.fromEllipseESoft),
        ('toEllipseE', ell, lambda x: x.toEllipseE()),
        ('copy', nc, lambda x: x.copy()),
        ('cov', ell, lambda x: x.getCovariance()),
        ('basis', nc, cov_of),
        ('cov->E', isC, EllipseE.fromCovariance),
        ('cov->S', isC, EllipseESoft.fromCovariance),
        ('raphi->E', nc, lambda x: EllipseE.fromRAbPhi(x.re, x.ab, phi(x))),
        ('raphi->S', nc, lambda x: EllipseESoft.fromRAbPhi(x.re, x.ab, phi(x))),
        ('raphi->G', nc, lambda x: GalaxyShape(x.re, x.ab, phi(x))),
    ]


def chains(ck, r, ba, phi, depth):
    """every conversion chain from this ellipse"""
    from tractor.ellipses import EllipseE
    want = ref_cov(r, ba, phi)
    conv = conversions()
    types = ('EllipseE', 'EllipseESoft')

    def go(x, path, d):
        ck.state(('chain', r, ba, phi) + path)
        ck.step(1)
        got = x if isinstance(x, np.ndarray) else cov_of(x)
        near(np.array(got), want, '->'.join(path) or 'start', 1e-6)
        if d == 0:
            return
        for nm, ok, fn in conv:
            if not ok(x):
                continue
            before = x.copy() if isinstance(x, np.ndarray) else list(x.getAllParams())
            try:
                y = fn(x)
            except Exception as ex:
                fail('%s raised %s: %s for r=%g b/a=%g phi=%g' % ('->'.join(path + (nm,)), type(ex).__name__, ex, r, ba, phi))
            if isinstance(x, np.ndarray):
                expect(np.array_equal(x, before), nm + ' changed its argument')
            else:
                same(list(x.getAllParams()), before, nm + ' changed its argument')
            if nm in ('toEllipseE', 'S->E', 'cov->E', 'raphi->E'):
                expect(type(y).__name__ == 'EllipseE', nm + ' returned a ' + type(y).__name__)
            if nm in ('E->S', 'cov->S', 'raphi->S'):
                expect(type(y).__name__ == 'EllipseESoft', nm + ' returned a ' + type(y).__name__)
            expect(y is not x, nm + ' returned its argument')
            go(y, path + (nm,), d - 1)
    go(EllipseE.fromRAbPhi(r, ba, phi), (), depth)


def covgrid(c11, c22, rho):
    """an arbitrary covariance matrix becomes the ellipse with that covariance"""
    from tractor.ellipses import EllipseE, EllipseESoft
    cov = np.array([[c11, rho * math.sqrt(c11 * c22)], [rho * math.sqrt(c11 * c22), c22]])
    for cls in (EllipseE, EllipseESoft):
        s = cls.fromCovariance(cov.copy())
        near(cov_of(s), cov, cls.__name__ + '.fromCovariance', 1e-6)
        close(s.re, math.sqrt(np.linalg.eigvalsh(cov)[1]), 1e-7, 0, cls.__name__ + ' re')


def soft_domain(logre, ee1, ee2):
    from tractor.ellipses import EllipseE, EllipseESoft
    s = EllipseESoft(logre, ee1, ee2)
    expect(s.isLegal(), 'not legal')
    ee = math.hypot(ee1, ee2)
    expect(0. <= s.e <= 1., 'e=%r' % s.e)
    close(s.e, 1. - math.exp(-ee), 1e-12, 1e-12, 'e')
    expect(0. <= s.ab <= 1., 'ab=%r' % s.ab)
    C = cov_of(s)
    expect(np.all(np.isfinite(C)), 'covariance not finite')
    r = math.exp(logre)
    ev = np.sqrt(np.maximum(np.linalg.eigvalsh(C), 0.))
    close(ev[1], r, 1e-6, 0, 'major axis')
    want = max(s.ab, 1e-3)
    close(ev[0] / ev[1], want, 0, 1e-5, 'axis ratio (at least 1/1000)')
    T = s.getTensor(np.eye(2) / 3600.)
    expect(np.all(np.isfinite(T)), 'tensor not finite')
    E = s.toEllipseE()
    expect(E.isLegal(), 'toEllipseE gives an illegal ellipse %r' % E)
    expect(E.e <= .999999 + 1e-9, 'toEllipseE e=%r' % E.e)
    close(E.e, min(s.e, .999999), 1e-9, 1e-9, 'toEllipseE e')
    close(E.re, r, 1e-12, 0, 'toEllipseE re')
    E2 = s.toEllipseE(maxe=.7)
    close(E2.e, min(s.e, .7), 1e-9, 1e-9, 'toEllipseE(maxe=.7) e')
    if ee > 0:
        for X in (E, E2):
            d = (X.theta - s.theta) % math.pi
            expect(min(d, math.pi - d) < 1e-9, 'toEllipseE turned the ellipse by %g' % d)
    # growing ee makes the ellipse more elongated, keeps its direction
    t = EllipseESoft(logre, 1.5 * ee1, 1.5 * ee2)
    expect(t.e >= s.e, 'e is not monotone in ee')


def e_domain(re, e1, e2):
    from tractor.ellipses import EllipseE
    s = EllipseE(re, e1, e2)
    legal = (e1**2 + e2**2 < 1.) and re >= 0.
    expect(bool(s.isLegal()) == legal, 'isLegal() is %r' % s.isLegal())
    C = cov_of(s)
    expect(np.all(np.isfinite(C)), 'covariance not finite')
    e = math.hypot(e1, e2)
    close(s.e, e, 1e-12, 1e-12, 'e')
    ev = np.linalg.eigvalsh(C)
    close(math.sqrt(max(ev[1], 0.)), abs(re), 1e-6, 1e-12, 'major axis')
    if re > 0:
        want = max((1. - e) / (1. + e), 1e-3) if e < 1. else 1e-3
        close(math.sqrt(max(ev[0], 0.)) / re, want, 0, 1e-5, 'axis ratio')
    if legal and e <= .9999:
        # the steps with which numerical derivatives are taken
        p = list(s.getParams())
        for i, st in enumerate(s.getStepSizes()):
            expect(st != 0 and abs(st) <= .05, 'step size %r', st)
            old = s.setParam(i, p[i] + st)
            expect(s.isLegal(), 'a derivative step %r of parameter %i from %r leaves the legal ellipses', st, i, p)
            s.setParam(i, old)


def tiny(re, ab, phi):
    """GalaxyShape never gets smaller than 1/30 arcsec"""
    from tractor.galaxy import GalaxyShape
    near(cov_of(GalaxyShape(re, ab, phi)), ref_cov(max(re, 1. / 30), ab, phi), 'GalaxyShape')


def render(kind, wname, pname, r, ba, phi):
    import tractor as T
    from tractor import galaxy as GX
    from tractor.sersic import SersicGalaxy, SersicIndex
    from tractor.ellipses import EllipseE, EllipseESoft
    from mc.p07 import psfs
    from tractor.wcs import TanWcs
    if wname == 'null':
        wcs, pos = T.NullWCS(pixscale=.8), lambda: T.PixPos(8.3, 7.6)
    else:
        wcs = TanWcs(tan(rot=20., scale=.8))
        c = wcs.pixelToPosition(8.3, 7.6)
        pos = lambda: T.RaDecPos(c.ra, c.dec)
    ps = wcs.pixscale_at(8., 8.)
    psf = dict(psfs())[pname]()
    img = T.Image(data=np.zeros((17, 18), np.float32), inverr=np.ones((17, 18), np.float32), psf=psf, wcs=wcs,
                  sky=T.ConstantSky(0.), photocal=T.LinearPhotoCal(1.))
    r = r * ps

    def mk(sh):
        f = T.Flux(100.)
        if kind == 'fixcomp':
            return GX.FixedCompositeGalaxy(pos(), f, GX.SoftenedFracDev(.4), sh(r, ba, phi), sh(.8 * r, ba, phi + 20.))
        if kind == 'comp':
            return GX.CompositeGalaxy(pos(), f, sh(r, ba, phi), T.Flux(50.), sh(.8 * r, ba, phi + 20.))
        if kind == 'devcore':
            from tractor.devcore import DevCoreGalaxy
            return DevCoreGalaxy(pos(), f, sh(r, ba, phi), T.Flux(50.))
        if kind == 'sercore':
            from tractor.sercore import SersicCoreGalaxy
            return SersicCoreGalaxy(pos(), f, sh(r, ba, phi), SersicIndex(1.7), T.Flux(50.))
        if kind == 'sersic':
            return SersicGalaxy(pos(), f, sh(r, ba, phi), SersicIndex(1.7))
        return dict(exp=GX.ExpGalaxy, dev=GX.DevGalaxy, gauss=GX.GaussianGalaxy)[kind](pos(), f, sh(r, ba, phi))
    out = []
    for nm, sh in (('EllipseE', EllipseE.fromRAbPhi), ('EllipseESoft', EllipseESoft.fromRAbPhi), ('GalaxyShape', GX.GalaxyShape)):
        out.append((nm, T.Tractor([img], [mk(sh)]).getModelImage(0)))
    n0, m0 = out[0]
    expect(np.all(np.isfinite(m0)) and m0.sum() > 10., 'nothing rendered')
    for nm, m in out[1:]:
        close_img(m, m0, 1e-5, '%s rendered like %s' % (nm, n0))
    phi0 = phi
    phi = phi0 + 180.
    m = T.Tractor([img], [mk(GX.GalaxyShape)]).getModelImage(0)
    close_img(m, m0, 1e-5, 'turned by 180 degrees')
    if wname == 'null' and pname in ('ncirc',):
        # mirror images: transposing the picture is a turn to -90-phi
        phi = -90. - phi0
        img2 = T.Image(data=np.zeros((18, 17), np.float32), inverr=np.ones((18, 17), np.float32), psf=psf, wcs=wcs,
                       sky=T.ConstantSky(0.), photocal=T.LinearPhotoCal(1.))
        pos = lambda: T.PixPos(7.6, 8.3)
        if kind not in ('fixcomp', 'comp'):
            m = T.Tractor([img2], [mk(EllipseE.fromRAbPhi)]).getModelImage(0)
            close_img(m.T, m0, 1e-5, 'mirrored')


def run(ck):
    th = ck.thorough
    rs = [.2, 1., 2.5] + ([.05, 40., 3000.] if th else [])
    bas = [1., .95, .5, .1, .02] + ([.999, .7, .3, .005] if th else [])
    phis = list(np.arange(-180., 361., 5. if th else 15.)) + [-.001, 44.9, 89.999, 90.001]
    ck.section('values', '%d radii x %d axis ratios x %d angles x 6 constructions x 3 CD matrices' % (len(rs), len(bas), len(phis)))
    for r, ba, phi in itertools.product(rs, bas, phis):
        ck.case('values r=%g ba=%g phi=%g' % (r, ba, phi), values, r, ba, phi)

    depth = 4 if th else 3
    cr, cb = [.3, 2.5], [1., .6, .08]
    cp = [0., 30., 90., 100., -45., 135.] + ([10., -80., 179.] if th else [])
    ck.section('chains', 'all chains of <=%d conversions among EllipseE, EllipseESoft, GalaxyShape, covariance, (r, b/a, phi) from %d ellipses' % (depth, 2 * 3 * len(cp)))

    def shard(sub, item):
        r, ba, phi = item
        sub.case('chains r=%g ba=%g phi=%g' % item, chains, sub, r, ba, phi, depth)
    ck.shards(list(itertools.product(cr, cb, cp)), shard)

    cs = [.04, 1., 1.0001, 6.25] + ([.3, 100.] if th else [])
    rho = [-.99, -.7, -.3, 0., .1, .5, .95] + ([-.999, -.5, .3, .8] if th else [])
    ck.section('covariances', 'all (%d x %d) variances x %d correlations' % (len(cs), len(cs), len(rho)))
    for a, b, c in itertools.product(cs, cs, rho):
        ck.case('cov %g %g %g' % (a, b, c), covgrid, a, b, c)

    es = [-30., -3., -.5, -1e-6, 0., 1e-9, .1, 1., 4., 14., 200.] + ([-100., -8., 2., .01, 7.] if th else [])
    ck.section('softened domain', 'logre x ee1 x ee2 over %d values each of ee' % len(es))
    for l, a, b in itertools.product([-4., 0., 1.3, 6.], es, es):
        ck.case('soft %g %g %g' % (l, a, b), soft_domain, l, a, b)
    ds = [-1.5, -1., -.999999, -.995, -.6, 0., .2, .8, .995, .9999, 1., 3.]
    ck.section('EllipseE domain', 're x e1 x e2 including illegal values')
    for l, a, b in itertools.product([-1., 0., .01, 2.], ds, ds):
        ck.case('E %g %g %g' % (l, a, b), e_domain, l, a, b)
    for l, a, b in itertools.product([0., .01, 1. / 30, .034, .5], [.2, 1.], [0., 30., 100.]):
        ck.case('tiny %g %g %g' % (l, a, b), tiny, l, a, b)

    kinds = ['gauss', 'exp', 'dev', 'sersic', 'fixcomp', 'comp', 'devcore', 'sercore']
    pn = ['ncirc', 'gmix', 'pix', 'hybrid'] + (['pixover', 'psfex', 'ellmix'] if th else [])
    sh = [(1.2, .6, 30.), (2., .3, 110.), (1.5, 1., 0.)] + ([(2.5, .15, -70.), (.5, .5, 0.), (1.7, .8, 90.)] if th else [])
    ck.section('rendering', '8 galaxy kinds x 2 WCS x %d PSFs x %d shapes in three parameterisations' % (len(pn), len(sh)))

    def shard2(sub, kind):
        for w, p, s in itertools.product(['null', 'tan'], pn, sh):
            sub.case('render %s %s %s %s' % (kind, w, p, s), render, kind, w, p, *s)
    ck.shards(kinds, shard2)
    ck.assumptions.append('phi follows the code: the major axis lies along (-sin phi, cos phi) in (RA, Dec); axis ratios below 1/1000 are rendered as 1/1000')
