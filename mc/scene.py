"""
Scenes: plain descriptions (dicts of numbers) from which both the real objects
and the reference image are built.  Used by the rendering / likelihood /
derivative / optimisation checks.
"""
import copy
import numpy as np
from mc import ref

# PSF menu: (amps, means, covariances)
PSF1 = (np.array([1.]), np.array([[0., 0.]]), np.array([[[2.2, 0.4], [0.4, 1.6]]]))
PSF2 = (np.array([.7, .3]), np.array([[0., 0.], [.4, -.3]]),
        np.array([[[1.7, .3], [.3, 1.5]], [[4.2, -.4], [-.4, 5.1]]]))

KINDS = ['point', 'gauss', 'exp', 'dev', 'fixcomp', 'comp', 'expsoft']
# sources with two brightnesses
CORES = ['devcore', 'sercore']
TWO = ('comp', 'devcore', 'sercore')


def source(kind, x=6.3, y=5.8, flux=100., shape=(1.6, .25, -.15), frac=0.4, flux2=60., shape2=(1.1, -.2, .1), index=1.7):
    return dict(index=index, kind=kind, x=x, y=y, flux=flux, shape=tuple(shape), frac=frac, flux2=flux2, shape2=tuple(shape2))


def image(shape=(12, 13), psf=PSF2, dx=0., dy=0., pixscale=1., scale=1., sky=0., seed=1, noise=None, zero=()):
    """noise: inverse error level pattern seed; zero: list of masked (y,x) pixels."""
    return dict(shape=tuple(shape), psf=psf, dx=dx, dy=dy, pixscale=pixscale, scale=scale, sky=sky, seed=seed,
                zero=tuple(zero))


def build_source(s):
    import tractor as T
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.galaxy import (GaussianGalaxy, ExpGalaxy, DevGalaxy, FixedCompositeGalaxy, CompositeGalaxy,
                                SoftenedFracDev)
    pos = T.PixPos(s['x'], s['y'])
    fl = T.Flux(s['flux'])
    k = s['kind']
    if k == 'point':
        return T.PointSource(pos, fl)
    if k == 'gauss':
        return GaussianGalaxy(pos, fl, EllipseE(*s['shape']))
    if k == 'exp':
        return ExpGalaxy(pos, fl, EllipseE(*s['shape']))
    if k == 'expsoft':
        return ExpGalaxy(pos, fl, EllipseESoft(np.log(s['shape'][0]), s['shape'][1], s['shape'][2]))
    if k == 'dev':
        return DevGalaxy(pos, fl, EllipseE(*s['shape']))
    if k == 'fixcomp':
        return FixedCompositeGalaxy(pos, fl, SoftenedFracDev(s['frac']), EllipseE(*s['shape']), EllipseE(*s['shape2']))
    if k == 'comp':
        return CompositeGalaxy(pos, fl, EllipseE(*s['shape']), T.Flux(s['flux2']), EllipseE(*s['shape2']))
    if k == 'devcore':
        from tractor.devcore import DevCoreGalaxy
        return DevCoreGalaxy(pos, fl, EllipseE(*s['shape']), T.Flux(s['flux2']))
    if k == 'sercore':
        from tractor.sercore import SersicCoreGalaxy
        from tractor.sersic import SersicIndex
        return SersicCoreGalaxy(pos, fl, EllipseE(*s['shape']), SersicIndex(s['index']), T.Flux(s['flux2']))
    raise KeyError(k)


def params(s):
    """The source's full parameter vector, in the documented order."""
    k = s['kind']
    if k == 'point':
        return [s['x'], s['y'], s['flux']]
    sh = list(s['shape'])
    if k == 'expsoft':
        sh = [np.log(s['shape'][0])] + sh[1:]
    if k in ('gauss', 'exp', 'dev', 'expsoft'):
        return [s['x'], s['y'], s['flux']] + sh
    if k == 'fixcomp':
        return [s['x'], s['y'], s['flux'], s['frac']] + sh + list(s['shape2'])
    if k == 'comp':
        return [s['x'], s['y'], s['flux']] + sh + [s['flux2']] + list(s['shape2'])
    if k == 'devcore':
        return [s['x'], s['y'], s['flux']] + sh + [s['flux2']]
    if k == 'sercore':
        return [s['x'], s['y'], s['flux']] + sh + [s['index'], s['flux2']]


def with_params(s, p):
    s = dict(s)
    k = s['kind']
    p = [float(v) for v in p]
    s['x'], s['y'], s['flux'] = p[:3]
    if k in ('gauss', 'exp', 'dev'):
        s['shape'] = tuple(p[3:6])
    elif k == 'expsoft':
        s['shape'] = (np.exp(p[3]), p[4], p[5])
    elif k == 'fixcomp':
        s['frac'] = p[3]
        s['shape'] = tuple(p[4:7])
        s['shape2'] = tuple(p[7:10])
    elif k == 'comp':
        s['shape'] = tuple(p[3:6])
        s['flux2'] = p[6]
        s['shape2'] = tuple(p[7:10])
    elif k in CORES:
        s['shape'] = tuple(p[3:6])
        if k == 'sercore':
            s['index'] = p[6]
        s['flux2'] = p[-1]
    return s


LAYOUT = ['C']
LAYOUTS = ['F', 'strided', 'reversed', 'bigendian', 'readonly', 'float32', 'float32F']


def lay(a):
    """the same numbers in another memory layout"""
    how = LAYOUT[0]
    a = np.array(a)
    if how.startswith('float32'):
        a = a.astype(np.float32)
    if how.endswith('F'):
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full((2 * a.shape[0], 3 * a.shape[1]), 1e3, a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == 'reversed':
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if how == 'bigendian':
        return a.astype(a.dtype.newbyteorder('>'))
    if how == 'readonly':
        a.setflags(write=False)
    return a


def laid(how, fn, *args, **kw):
    """fn(...) with every image that it builds held in the given memory layout"""
    old = LAYOUT[0]
    LAYOUT[0] = how
    try:
        return fn(*args, **kw)
    finally:
        LAYOUT[0] = old


def build_image(im, data=None):
    import tractor as T
    from tractor.basics import NullWCS
    from mc.core import texture
    H, W = im['shape']
    ie = 0.5 + 0.5 * np.abs(texture((H, W), 100 + im['seed']))
    for (y, x) in im['zero']:
        ie[y, x] = 0.
    if data is None:
        data = 2. * texture((H, W), im['seed'])
    a, m, v = im['psf']
    return T.Image(data=lay(data), inverr=lay(ie),
                   psf=T.GaussianMixturePSF(a.copy(), m.copy(), v.copy()),
                   wcs=NullWCS(pixscale=im['pixscale'], dx=im['dx'], dy=im['dy']),
                   photocal=T.LinearPhotoCal(im['scale']), sky=T.ConstantSky(im['sky']), name='im%d' % im['seed'])


def inverr(im):
    from mc.core import texture
    H, W = im['shape']
    ie = 0.5 + 0.5 * np.abs(texture((H, W), 100 + im['seed']))
    for (y, x) in im['zero']:
        ie[y, x] = 0.
    return ie


def comps(s):
    """[(flux, profile, basis)]"""
    k = s['kind']
    G = lambda sh: ref.ellipse_basis(*sh)
    if k == 'point':
        return [(s['flux'], 'point', None)]
    if k in ('gauss', 'exp', 'dev'):
        return [(s['flux'], k, G(s['shape']))]
    if k == 'expsoft':
        return [(s['flux'], 'exp', G(ref.soft_to_e(np.log(s['shape'][0]), s['shape'][1], s['shape'][2])))]
    if k == 'fixcomp':
        f = ref.softened_fracdev(s['frac'])
        return [(s['flux'] * (1. - f), 'exp', G(s['shape'])), (s['flux'] * f, 'dev', G(s['shape2']))]
    if k == 'comp':
        return [(s['flux'], 'exp', G(s['shape'])), (s['flux2'], 'dev', G(s['shape2']))]
    if k == 'devcore':
        return [(s['flux'], 'dev', G(s['shape'])), (s['flux2'], 'point', None)]
    if k == 'sercore':
        # (the profile itself is judged by P27)
        from tractor.sersic import SersicMixture
        m = SersicMixture.getProfile(s['index'])
        return [(s['flux'], (np.array(m.amp), np.array(m.var[:, 0, 0])), G(s['shape'])), (s['flux2'], 'point', None)]


def ref_source(s, im, box=None):
    H, W = im['shape']
    if box is None:
        box = (0, W, 0, H)
    cdinv = np.eye(2) * 3600. / im['pixscale']
    return im['scale'] * ref.unit_source(comps(s), s['x'] + im['dx'], s['y'] + im['dy'], im['psf'], cdinv, box)


def ref_image(srcs, im, sky=True):
    H, W = im['shape']
    out = np.zeros((H, W)) + (im['sky'] if sky else 0.)
    for s in srcs:
        out += ref_source(s, im)
    return out
