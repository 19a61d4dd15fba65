"""
P25: PsfEx models.  The polynomial of position that the file (or one row of a
merged table) defines, through every history of copying, shifting, saving,
pickling and use; and splines of Gaussian-mixture parameters, fitted, saved,
restored and cached.
"""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile
import numpy as np
from mc import scene
from mc.core import expect, fail, close, close_img, same, texture
from mc.zoo import psf_stamp

POS = [(6., 7.), (0., 0.), (13.25, 2.5), (-8.5, 31.75)]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc25')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def terms(degree):
    """(power of x, power of y) of each basis image, in the order of the PSFEx format"""
    return [(j, k) for k in range(degree + 1) for j in range(degree + 1 - k)]


class Ref(object):
    def __init__(self, degree, sampling=1., n=9, row=0, fwhm=2.5):
        self.degree, self.sampling, self.n, self.fwhm = degree, sampling, n, fwhm + row
        self.x0, self.y0 = 6. + row, 7. - 2 * row
        self.xs, self.ys = 10. + row, 12. + 3 * row
        ne = len(terms(degree))
        b = [psf_stamp(n)] + [0.1 * psf_stamp(n, 20 + i + row) * texture((n, n), 40 + i + row) for i in range(1, ne)]
        self.bases = np.array(b).astype(np.float32)

    def clone(self):
        r = Ref.__new__(Ref)
        r.__dict__.update(self.__dict__)
        return r

    def at(self, x, y):
        dx, dy = (x - self.x0) / self.xs, (y - self.y0) / self.ys
        return sum(dx**j * dy**k * b.astype(float) for (j, k), b in zip(terms(self.degree), self.bases))

    def keys(self):
        return [('POLNAME1', 'X_IMAGE'), ('POLNAME2', 'Y_IMAGE'), ('POLGRP1', 1), ('POLGRP2', 1), ('POLNGRP', 1),
                ('PSFAXIS3', len(self.bases)), ('POLZERO1', self.x0), ('POLZERO2', self.y0), ('POLSCAL1', self.xs),
                ('POLSCAL2', self.ys), ('POLDEG1', self.degree), ('PSF_SAMP', self.sampling), ('PSF_FWHM', self.fwhm)]


def write(fn, refs, names=('X_IMAGE', 'Y_IMAGE'), constant=False):
    """one PSFEx binary table per extension"""
    import fitsio
    f = fitsio.FITS(fn, 'rw', clobber=True)
    for r in refs:
        hdr = fitsio.FITSHDR()
        for k, v in r.keys():
            if constant and k.startswith('POL') and k != 'POLNGRP':
                continue
            if k == 'POLNAME1':
                v = names[0]
            if k == 'POLNAME2':
                v = names[1]
            if k == 'POLNGRP' and constant:
                v = 0
            hdr[k] = v
        f.write(np.rec.fromarrays([r.bases[np.newaxis]], names='PSF_MASK') if False else table(r.bases), header=hdr)
    f.close()


def table(b):
    T = np.zeros(1, dtype=[('PSF_MASK', 'f4', b.shape)])
    T['PSF_MASK'][0] = b
    return T


def model(r):
    from tractor.psfex import PsfExModel
    m = PsfExModel()
    m.psfbases = r.bases.copy()
    m.sampling, m.degree, m.xscale, m.yscale, m.x0, m.y0 = r.sampling, r.degree, r.xs, r.ys, r.x0, r.y0
    m.radius, m.fwhm = (r.n + 1) / 2., r.fwhm
    return m


def check_model(m, r, what):
    same(tuple(m.shape), r.bases.shape[1:], what + ': shape')
    same(int(m.nbases), len(r.bases), what + ': number of bases')
    close(float(m.sampling), r.sampling, 1e-6, 0, what + ': sampling')
    if r.fwhm is None:
        expect(m.fwhm is None, what + ': fwhm')
    else:
        close(float(m.fwhm), r.fwhm, 1e-6, 0, what + ': fwhm')
    same(float(m.radius), (r.n + 1) / 2., what + ': radius')
    close_img(np.array(m.bases(), float), r.bases.astype(float), 0., what + ': bases')
    for x, y in POS:
        dx, dy = (x - r.x0) / r.xs, (y - r.y0) / r.ys
        want = [dx**j * dy**k for j, k in terms(r.degree)]
        close(list(m.polynomials(x, y)), want, 1e-9, 1e-12, '%s: polynomials(%g,%g)' % (what, x, y))
        t, xp, yp = m.polynomials(x, y, powers=True)
        close(list(t), want, 1e-9, 1e-12, '%s: polynomials(%g,%g, powers)' % (what, x, y))
        same(list(zip([int(i) for i in xp], [int(i) for i in yp])), terms(r.degree), what + ': powers')
        img = r.at(x, y)
        close_img(np.array(m.at(x, y), float), img, 1e-6 * max(1., np.abs(img).max()), '%s: at(%g,%g)' % (what, x, y))


# ------------------------------------------------------------------ sources of a model
def case_file(degree, sampling, names, const, ext, fwhm, n):
    from tractor.psfex import PsfExModel, PixelizedPsfEx
    with scratch() as d:
        refs = [Ref(degree, sampling, n, row, fwhm) for row in range(3)]
        fn = os.path.join(d, 'p.fits')
        write(fn, refs, names, const)
        r = refs[ext - 1]
        m = PsfExModel(fn, ext=ext)
        if const:
            r.x0 = r.y0 = 0.
            r.xs = r.ys = 1.
        check_model(m, r, 'read from extension %d' % ext)
        p = PixelizedPsfEx(fn, ext=ext)
        check_psf(p, r, False, 'PixelizedPsfEx from extension %d' % ext)
        # and back
        f2 = os.path.join(d, 'q.fits')
        m.writeto(f2)
        check_model(m, r, 'after writeto')
        check_model(PsfExModel(f2), r, 'written and read back')
        import fitsio
        hdr = fitsio.read_header(f2, ext=1)
        for k, v in r.keys():
            got = hdr.get(k)
            if isinstance(v, str):
                same(got.strip(), v, 'header %s' % k)
            else:
                close(float(got), float(v), 1e-6, 1e-9, 'header %s' % k)
        arr = fitsio.read(f2, ext=1)
        col = [c for c in arr.dtype.names if c.lower() == 'psf_mask']
        same(len(col), 1, 'psf_mask columns')
        close_img(np.array(arr[col[0]][0], float), r.bases.astype(float), 0., 'saved bases')


def case_merged(degree, sampling, names, row, order, n):
    from tractor.psfex import PsfExModel
    from astrometry.util.fits import fits_table
    with scratch() as d:
        refs = [Ref(degree, sampling, n, i) for i in range(3)]
        T = fits_table()
        T.psf_mask = np.array([r.bases for r in refs])
        for i, (k, v) in enumerate(refs[0].keys()):
            vals = [dict(r.keys())[k] for r in refs]
            if k == 'POLNAME1':
                vals = [names[0]] * 3
            if k == 'POLNAME2':
                vals = [names[1]] * 3
            T.set(k.lower(), np.array(vals))
        fn = os.path.join(d, 'm.fits')
        T.writeto(fn)
        T = fits_table(fn)
        T.cut(np.array(order))
        Ti = T[row]
        m = PsfExModel(Ti=Ti)
        check_model(m, refs[order[row]], 'row %d of a merged table' % row)
        for j, o in enumerate(order):
            m2 = PsfExModel(Ti=T[j])
            m2.shift(3., 5.)
        check_model(m, refs[order[row]], 'row %d, after using other rows' % row)
        check_model(PsfExModel(Ti=T[row]), refs[order[row]], 'row %d, read again' % row)


# ------------------------------------------------------------------ histories
def check_psf(p, r, norm, what):
    from tractor.psf import PixelizedPSF, NormalizedPixelizedPsf
    if r.fwhm is not None:
        close(float(p.fwhm), r.fwhm, 1e-6, 0, what + ': fwhm')
    C = NormalizedPixelizedPsf if norm else PixelizedPSF
    for i, (x, y) in enumerate(POS):
        img = r.at(x, y)
        if norm:
            img = img / img.sum()
        tol = 2e-6 * max(1., np.abs(img).max())
        w = '%s at (%g,%g)' % (what, x, y)
        close_img(np.array(p.getImage(x, y), float), img, tol, w + ': getImage')
        c = p.constantPsfAt(x, y)
        close_img(np.array(c.getImage(0., 0.), float), img, tol, w + ': constantPsfAt image')
        close(float(c.sampling), r.sampling, 1e-6, 0, w + ': constantPsfAt sampling')
        # a fresh pixelized PSF of the reference image: its star images and transforms are P16's subject
        q = C(img.astype(np.float32), sampling=r.sampling)
        for kw in (dict(), dict(radius=3)):
            a, b = p.getPointSourcePatch(x, y, **kw), q.getPointSourcePatch(x, y, **kw)
            same((a is None, b is None), (False, False), w + ': star image')
            same((a.x0, a.y0, a.patch.shape), (b.x0, b.y0, b.patch.shape), w + ': star image extent')
            close_img(np.array(a.patch, float), np.array(b.patch, float), 4 * tol, w + ': star image %s' % kw)
        for rad in (4, 12):
            F, c1, s1, vw = p.getFourierTransform(x, y, rad)
            G, c2, s2, vw2 = q.getFourierTransform(x, y, rad)
            same((c1, tuple(s1)), (c2, tuple(s2)), w + ': transform geometry')
            same([list(a) for a in vw], [list(a) for a in vw2], w + ': frequencies')
            close_img(np.fft.irfft2(F, s=s1), np.fft.irfft2(G, s=s2), 1e-5 * max(1., np.abs(img).max()), w + ': transform at radius %d' % rad)


def case_history(degree, sampling, norm, hist):
    from tractor.psfex import PixelizedPsfEx, NormalizedPixelizedPsfEx
    C = NormalizedPixelizedPsfEx if norm else PixelizedPsfEx
    r = Ref(degree, sampling)
    p = C(None, psfex=model(r))
    parents = []
    with scratch() as d:
        for i, op in enumerate(hist):
            old, oref = p, r.clone()
            r = r.clone()
            keep = True
            if op == 'copy':
                p = p.copy()
            elif op == 'shifted':
                p = p.getShifted(3., -2.)
                r.x0, r.y0 = r.x0 - 3., r.y0 + 2.
            elif op == 'shifted2':
                p = p.getShifted(.5, 1.25)
                r.x0, r.y0 = r.x0 - .5, r.y0 - 1.25
            elif op == 'shift':
                p.shift(1., 4.)
                r.x0, r.y0 = r.x0 - 1., r.y0 - 4.
                keep = False
            elif op == 'use':
                for x, y in POS[1:]:
                    p.getFourierTransform(x, y, 6)
                    p.getImage(x, y)
                    p.getPointSourcePatch(x, y)
                keep = False
            elif op == 'file':
                fn = os.path.join(d, 'h%d.fits' % i)
                p.psfex.writeto(fn)
                p = C(fn)
            elif op == 'pickle':
                p = pickle.loads(pickle.dumps(p))
            elif op == 'wrapmodel':
                p = C(None, psfex=p.psfex.copy())
            elif op == 'model':
                m = p.psfex.shifted(-1., 2.)
                p = C(None, psfex=m)
                r.x0, r.y0 = r.x0 + 1., r.y0 - 2.
            if keep:
                parents.append((old, oref, op))
            expect(type(p) is C, '%s gives a %s' % (op, type(p).__name__))
            check_model(p.psfex, r, 'model after ' + op)
            check_psf(p, r, norm, 'after ' + op)
        for old, oref, op in parents:
            check_psf(old, oref, norm, 'the PSF that was the operand of ' + op)
            check_model(old.psfex, oref, 'the model that was the operand of ' + op)


OPS = ['copy', 'shifted', 'shifted2', 'shift', 'use', 'file', 'pickle', 'wrapmodel', 'model']


# ------------------------------------------------------------------ galaxies see the local PSF
def case_galaxy(degree, sampling, norm, pos, shift):
    import tractor as T
    from tractor.psfex import PixelizedPsfEx, NormalizedPixelizedPsfEx
    from tractor.psf import PixelizedPSF, NormalizedPixelizedPsf, HybridPixelizedPSF
    from tractor.galaxy import ExpGalaxy
    from tractor.ellipses import EllipseE
    r = Ref(degree, sampling)
    C = NormalizedPixelizedPsfEx if norm else PixelizedPsfEx
    p0 = C(None, psfex=model(r))
    sx, sy = shift
    p = p0.getShifted(sx, sy) if (sx or sy) else p0
    img = r.at(pos[0] + sx, pos[1] + sy)
    if norm:
        img = img / img.sum()
    q = (NormalizedPixelizedPsf if norm else PixelizedPSF)(img.astype(np.float32), sampling=sampling)
    # the same behind a hybrid (its Gaussian part is the same everywhere), which is moved as a whole
    gm = lambda: T.GaussianMixturePSF(*[a.copy() for a in scene.PSF1])
    h = HybridPixelizedPSF(p0, gm())
    h = h.getShifted(sx, sy) if (sx or sy) else h
    hc = h.constantPsfAt(*pos)
    out = []
    for psf in (p, q, h, hc, HybridPixelizedPSF(q, gm())):
        tim = T.Image(data=np.zeros((40, 42), np.float32), invvar=np.ones((40, 42), np.float32), psf=psf,
                      wcs=T.NullWCS(), photocal=T.LinearPhotoCal(1.), sky=T.ConstantSky(0.))
        for s in (T.PointSource(T.PixPos(*pos), T.Flux(50.)), ExpGalaxy(T.PixPos(*pos), T.Flux(50.), EllipseE(2., .2, .1))):
            m = np.zeros((40, 42))
            pa = s.getModelPatch(tim)
            pa.addTo(m)
            out.append(m)
    close_img(out[0], out[2], 2e-4, 'point source')
    close_img(out[1], out[3], 2e-4, 'galaxy')
    for i, w in ((4, 'through a hybrid PSF'), (6, 'through the constant hybrid PSF there')):
        close_img(out[i], out[8], 2e-4, 'point source ' + w)
        close_img(out[i + 1], out[9], 2e-4, 'galaxy ' + w)
    # the constant PSFs are the same everywhere
    far = (pos[0] + (11. if pos[0] < 20 else -9.), pos[1] + (8. if pos[1] < 20 else -12.))
    for cp, ref, w in ((p.constantPsfAt(*pos), q, 'constant PSF'), (hc, HybridPixelizedPSF(q, gm()), 'constant hybrid PSF')):
        for s in (T.PointSource(T.PixPos(*far), T.Flux(50.)), ExpGalaxy(T.PixPos(*far), T.Flux(50.), EllipseE(2., .2, .1))):
            a = []
            for psf in (cp, ref):
                tim = T.Image(data=np.zeros((40, 42), np.float32), invvar=np.ones((40, 42), np.float32), psf=psf,
                              wcs=T.NullWCS(), photocal=T.LinearPhotoCal(1.), sky=T.ConstantSky(0.))
                m = np.zeros((40, 42))
                s.getModelPatch(tim).addTo(m)
                a.append(m)
            close_img(a[0], a[1], 2e-4, '%s elsewhere: %s' % (w, type(s).__name__))


# ------------------------------------------------------------------ splines of mixtures
def lagrange(nodes, vals, x):
    s = 0.
    for i, a in enumerate(nodes):
        w = 1.
        for j, b in enumerate(nodes):
            if i != j:
                w *= (x - b) / (a - b)
        s += w * vals[i]
    return s


def spline(pp, XX, YY, x, y):
    """tensor-product cubic spline (not-a-knot) through pp[iy,ix,:]"""
    ny, nx, n = pp.shape
    if nx == 4 and ny == 4:
        rows = [lagrange(XX, pp[iy], x) for iy in range(ny)]
        return lagrange(YY, np.array(rows), y)
    from scipy.interpolate import make_interp_spline
    a = make_interp_spline(YY, pp, k=3, axis=0)(y)
    return make_interp_spline(XX, a, k=3, axis=0)(x)


def gstamp(x, y, n=31):
    yy, xx = np.mgrid[:n, :n] - n // 2
    vx, vy, c = 3. + .004 * x + .0005 * y, 4. - .003 * y, .5 + .002 * x - .001 * y
    mx, my = .3 + .001 * x, -.2 + .002 * y
    V = np.linalg.inv(np.array([[vx, c], [c, vy]]))
    dx, dy = xx - mx, yy - my
    g = np.exp(-.5 * (V[0, 0] * dx**2 + 2 * V[0, 1] * dx * dy + V[1, 1] * dy**2))
    return g / g.sum()


def moments(im):
    n = im.shape[0]
    yy, xx = np.mgrid[:n, :n] - n // 2
    w = im / im.sum()
    mx, my = (w * xx).sum(), (w * yy).sum()
    return [1., mx, my, (w * (xx - mx)**2).sum(), (w * (yy - my)**2).sum(), (w * (xx - mx) * (yy - my)).sum()]


def inside(W, H):
    return [(0., 0.), (W, H), (.3 * W, .8 * H), (.77 * W, .1 * H), (.5 * W, 0.)]


def case_fit(W, H, nx, ny, save):
    from tractor.psfex import VaryingGaussianPSF

    class V(VaryingGaussianPSF):
        calls = 0

        def instantiateAt(self, x, y):
            V.calls += 1
            return gstamp(x, y)
    v = V(W, H, nx=nx, ny=ny, K=1)
    v.savesplinedata = save
    XX, YY = np.linspace(0, W, nx), np.linspace(0, H, ny)
    pp = np.array([[moments(gstamp(x, y)) for x in XX] for y in YY])
    for rnd in range(2):
        for x, y in inside(W, H) + [(XX[1], YY[2])]:
            want = spline(pp, XX, YY, x, y)
            close(list(v.psfParamsAt(x, y)), list(want), 2e-5, 2e-5, 'parameters at (%g,%g)' % (x, y))
            check_mog(v.psfAt(x, y), want, 'psfAt(%g,%g)' % (x, y))
            check_mog(v.mogAt(x, y), want, 'mogAt(%g,%g)' % (x, y))
            m = v.getMixtureOfGaussians(px=x, py=y)
            close(list(m.mean.ravel()), list(want[1:3]), 2e-5, 2e-5, 'mixture means')
            pa = v.getPointSourcePatch(x, y, radius=6)
            q = v.psfclass(*want).getPointSourcePatch(x, y, radius=6)
            same((pa.x0, pa.y0, pa.patch.shape), (q.x0, q.y0, q.patch.shape), 'star extent')
            close_img(np.array(pa.patch, float), np.array(q.patch, float), 1e-5, 'star image')
    same(V.calls, nx * ny, 'number of stamps fitted')
    if save:
        sp, sx, sy = v.splinedata
        close_img(np.array(sp, float).reshape(-1, 6), pp.reshape(-1, 6), 2e-5, 'saved fits')


def check_mog(psf, want, what, K=1):
    close(list(psf.mog.amp), list(want[:K]), 2e-5, 2e-5, what + ': amplitudes')
    close(list(psf.mog.mean.ravel()), list(want[K:3 * K]), 2e-5, 2e-5, what + ': means')
    v = np.array(want[3 * K:]).reshape(K, 3)
    got = psf.mog.var
    close(list(np.array([got[:, 0, 0], got[:, 1, 1], got[:, 0, 1]]).T.ravel()), list(v.ravel()), 2e-5, 2e-5, what + ': variances')


def gridparams(kind, nx, ny, K, W, H):
    XX, YY = np.linspace(0, W, nx), np.linspace(0, H, ny)
    pp = np.zeros((ny, nx, 6 * K))
    for k in range(K):
        t = [1 + .1 * texture((ny, nx), 7 * k + j) for j in range(6)]
        pp[:, :, k] = (k + 1) / 3. * t[0]
        pp[:, :, K + 2 * k] = .1 * (k - 1) * t[1]
        pp[:, :, K + 2 * k + 1] = -.2 * (k + 1) * t[2]
        o = 3 * K + 3 * k
        if kind == 'mog':
            pp[:, :, o] = (2. + k) * t[3]
            pp[:, :, o + 1] = (3. + k) * t[4]
            pp[:, :, o + 2] = .3 * t[5]
        else:
            pp[:, :, o] = .3 * (k + 1) * t[3]
            pp[:, :, o + 1] = .2 * t[4]
            pp[:, :, o + 2] = -.1 * t[5]
    return pp, XX, YY


def mkvar(kind, nx, ny, K, W, H, fn=None, cls=None, **kw):
    from tractor import psfex
    from tractor.psf import GaussianMixturePSF, GaussianMixtureEllipsePSF
    pc = GaussianMixturePSF if kind == 'mog' else GaussianMixtureEllipsePSF
    cls = cls or psfex.VaryingGaussianPsfEx
    return cls(fn, W, H, nx=nx, ny=ny, K=K, psfClass=pc, **kw)


def params_match(psf, want, kind, what):
    close(list(psf.getAllParams()), list(want), 1e-6, 1e-7, what)


def case_save(kind, nx, ny, K, how, merge):
    from tractor.psfex import VaryingGaussianPsfEx
    W, H = 200, 330
    pp, XX, YY = gridparams(kind, nx, ny, K, W, H)
    with scratch() as d:
        fn = os.path.join(d, 'v.fits')
        v = mkvar(kind, nx, ny, K, W, H)
        if how == 'data':
            v.toFits(fn, data=(pp, XX, YY), merge=merge)
        elif how == 'attr':
            v.splinedata = (pp, XX, YY)
            v.toFits(fn, merge=merge)
        elif how == 'fitted':
            v.splinedata = (pp, XX, YY)
            v.ensureSplines()
            v.psfAt(3., 4.)
            v.toFits(fn, merge=merge)
        elif how == 'header':
            import fitsio
            hdr = fitsio.FITSHDR()
            hdr['MYKEY'] = 42
            v.toFits(fn, data=(pp, XX, YY), hdr=hdr, merge=merge)
            same(int(fitsio.read_header(fn, ext=1)['MYKEY']), 42, 'caller header card')
        elif how == 'twice':
            v.toFits(fn, data=(pp, XX, YY), merge=not merge)
            w = VaryingGaussianPsfEx.fromFits(fn)
            w.psfAt(1., 2.)
            w.toFits(fn, merge=merge)
        w = VaryingGaussianPsfEx.fromFits(fn)
        same((int(w.W), int(w.H), int(w.nx), int(w.ny), int(w.K), w.psfclass), (W, H, nx, ny, K, v.psfclass), 'restored geometry')
        for x, y in inside(W, H) + [(XX[2], YY[1])]:
            want = spline(pp, XX, YY, x, y)
            close(list(w.psfParamsAt(x, y)), list(want), 1e-6, 1e-7, 'restored parameters at (%g,%g)' % (x, y))
            p = w.psfAt(x, y)
            expect(type(p) is v.psfclass, 'restored PSF type')
            params_match(p, want, kind, 'restored PSF at (%g,%g)' % (x, y))


QUERIES = [(12., 13.), (17., 11.), (22., 13.), (12., 27.), (-5., 3.), (5., -3.), (-12., -13.), (99.5, 10.), (20., 20.)]


def case_cache(kind, rounding, source, hist):
    """every answer of a CachingPsfEx is the model at the centre of the rounding cell"""
    from tractor.psfex import CachingPsfEx
    W, H, nx, ny, K = 120, 90, 4, 5, 2
    pp, XX, YY = gridparams(kind, nx, ny, K, W, H)
    with scratch():
        b = mkvar(kind, nx, ny, K, W, H)
        b.splinedata = (pp, XX, YY)
        if source == 'from':
            c = CachingPsfEx.fromPsfEx(b, rounding=rounding)
        elif source == 'from-used':
            b.psfAt(1., 2.)
            c = CachingPsfEx.fromPsfEx(b, rounding=rounding)
        else:
            c = mkvar(kind, nx, ny, K, W, H, cls=CachingPsfEx, rounding=rounding)
            c.splinedata = (pp, XX, YY)
        for q in hist:
            if q == 'pickle':
                c = pickle.loads(pickle.dumps(c))
                continue
            x, y = q
            cx = np.floor(x / float(rounding)) * rounding + rounding // 2
            cy = np.floor(y / float(rounding)) * rounding + rounding // 2
            # outside the grid the spline takes the value at the edge
            want = spline(pp, XX, YY, np.clip(cx, 0, W), np.clip(cy, 0, H))
            params_match(c.psfAt(x, y), want, kind, 'PSF at (%g,%g), rounding %g' % (x, y, rounding))
            exact = spline(pp, XX, YY, np.clip(x, 0, W), np.clip(y, 0, H))
            close(list(c.psfParamsAt(x, y)), list(exact), 1e-6, 1e-7, 'parameters at (%g,%g)' % (x, y))
            params_match(b.psfAt(x, y), exact, kind, 'the model it was made from')


def case_psfexfit(n, K, degree, rounding):
    """fit of a PsfEx file: one Gaussian per grid point, moments of the model image there"""
    from tractor.psfex import VaryingGaussianPsfEx, CachingPsfEx
    W, H, nx, ny = 60, 80, 4, 4
    r = Ref(degree, 1., n)
    r.bases = np.array([psf_stamp(n)] + [.02 * (i + 1) * psf_stamp(n, 30 + i) for i in range(1, len(terms(degree)))]).astype(np.float32)
    with scratch() as d:
        fn = os.path.join(d, 'p.fits')
        write(fn, [r])
        XX, YY = np.linspace(0, W, nx), np.linspace(0, H, ny)

        def mom(x, y):
            im = r.at(x, y)
            return moments(np.maximum(im / im.sum(), 0))
        pp = np.array([[mom(x, y) for x in XX] for y in YY])
        v = VaryingGaussianPsfEx(fn, W, H, nx=nx, ny=ny, K=K)
        c = CachingPsfEx(fn, W, H, nx=nx, ny=ny, K=K, rounding=rounding)
        c2 = CachingPsfEx.fromPsfEx(v, rounding=rounding)
        for x, y in inside(W, H)[2:]:
            check_mog(v.psfAt(x, y), spline(pp, XX, YY, x, y), 'fitted PsfEx at (%g,%g)' % (x, y))
            cx = np.floor(x / float(rounding)) * rounding + rounding // 2
            cy = np.floor(y / float(rounding)) * rounding + rounding // 2
            for cc in (c, c2):
                check_mog(cc.psfAt(x, y), spline(pp, XX, YY, min(cx, W), min(cy, H)), 'cached PsfEx at (%g,%g)' % (x, y))


def run(ck):
    ck.assumptions.append('single-component mixture fits are compared with the moments of the stamp; multi-component fits only through saved parameters')
    XY, XW = ('X_IMAGE', 'Y_IMAGE'), ('XWIN_IMAGE', 'YWIN_IMAGE')
    items = []
    for degree in range(5 if ck.thorough else 4):
        for sampling in ((1., .5, .8) if ck.thorough else (1., .6)):
            for names in (XY, XW, ('X_IMAGE       ', 'Y_IMAGE  ')):
                for const in ((False, True) if degree == 0 else (False,)):
                    for ext in (1, 2, 3):
                        for n in ((9, 12) if ck.thorough else (9,)):
                            items.append(('file', (degree, sampling, names, const, ext, 2.5, n)))
                for row, order in itertools.product((0, 1, 2), list(itertools.permutations(range(3))) if ck.thorough else [(0, 1, 2), (2, 0, 1)]):
                    items.append(('merged', (degree, sampling, names, row, order, 9)))
    ck.section('sources', '%d models: degree x sampling x axis names x extension or merged row: terms, images, star images, transforms; written, re-read' % len(items))

    def doit(sub, it):
        kind, a = it
        fn = dict(file=case_file, merged=case_merged, history=case_history, galaxy=case_galaxy, fit=case_fit, save=case_save, cache=case_cache, psfexfit=case_psfexfit)[kind]
        sub.step(len(a[-1]) if kind in ('history', 'cache') else 1)
        sub.case('%s %s' % (kind, ' '.join(str(x).replace("'", '') for x in a)), fn, *a)

    def doall(sub, its):
        for it in its:
            doit(sub, it)

    def chunks(items):
        n = max(1, min(20, len(items) // 24))
        return [items[i:i + n] for i in range(0, len(items), n)]
    ck.shards(chunks(items), doall)

    items = []
    for degree, sampling, norm in ([(0, 1., False), (1, 1., False), (2, 1., False), (2, 1., True), (1, .6, False), (2, .6, True)]):
        depth = 4 if ck.thorough and degree == 1 else 3 if ck.thorough or degree == 1 else 2
        for L in range(0, depth + 1):
            for h in itertools.product(OPS, repeat=L):
                items.append(('history', (degree, sampling, norm, h)))
    ck.section('histories', '%d histories: all sequences of up to %s of %s for 6 PsfEx PSFs: images, star images and transforms after each; operands unchanged' % (len(items), '3 (4 for degree 1)' if ck.thorough else '2 (3 for degree 1)', ', '.join(OPS)))
    ck.shards(chunks(items), doall)

    items = [('galaxy', (degree, sampling, norm, pos, shift)) for degree in (0, 1, 2) for sampling in (1., .6) for norm in (False, True)
             for pos in ((20., 19.), (12.25, 25.5), (30.5, 9.75)) for shift in ((0, 0), (-14, 9))]
    ck.section('sources seen through it', '%d renderings of a star and a galaxy: equal to those under the constant PSF at their position' % len(items))
    ck.shards(chunks(items), doall)

    items = [('fit', (W, H, nx, ny, s)) for (W, H) in ((200, 330), (100, 100), (512, 64)) for nx, ny in ((4, 4), (5, 4), (4, 6)) for s in (False, True)]
    items += [('save', (kind, nx, ny, K, how, merge)) for kind in ('mog', 'ellipse') for nx, ny in ((4, 4), (5, 4), (4, 7)) for K in (1, 2, 3)
              for how in ('data', 'attr', 'fitted', 'header', 'twice') for merge in (False, True)]
    items += [('psfexfit', (n, 1, degree, rnd)) for n in (15, 25) for degree in (0, 1, 2) for rnd in (10, 100)]
    ck.section('mixture splines', '%d varying mixtures: fitted to stamps and PsfEx files x grids; saved and restored in both layouts' % len(items))
    ck.shards(chunks(items), doall)

    items = []
    Q = QUERIES + ['pickle']
    L = 3 if ck.thorough else 2
    for kind, rnd, src in itertools.product(('mog', 'ellipse'), (10, 7, 100), ('from', 'from-used', 'own')):
        for h in itertools.product(Q, repeat=L):
            if h[-1] != 'pickle':
                items.append(('cache', (kind, rnd, src, h)))
    ck.section('cached splines', '%d query histories: all sequences of %d of %d positions and pickling x rounding x construction' % (len(items), L, len(Q) - 1))
    ck.shards(chunks(items), doall)
