"""
An independent, deliberately plain reference renderer (numpy only): the model
of what an image of Gaussian-mixture sources under a Gaussian-mixture PSF must
look like.  Nothing of the package is used here.
"""
import numpy as np

EXP_A = np.array([2.34853813e-03, 3.07995260e-02, 2.23364214e-01, 1.17949102e+00, 4.33873750e+00, 5.99820770e+00])
EXP_V = np.array([1.20078965e-03, 8.84526493e-03, 3.91463084e-02, 1.39976817e-01, 4.60962500e-01, 1.50159566e+00])
DEV_A = np.array([4.26347652e-02, 2.40127183e-01, 6.85907632e-01, 1.51937350e+00, 2.83627243e+00, 4.46467501e+00,
                  5.72440830e+00, 5.60989349e+00])
DEV_V = np.array([2.23759216e-04, 1.00220099e-03, 4.18731126e-03, 1.69432589e-02, 6.84850479e-02, 2.87207080e-01,
                  1.33320254e+00, 8.40215071e+00])
CORE = 0.010233


def profile(kind):
    """(amplitudes, variances in units of r_e^2), unit total."""
    if kind == 'gauss':
        return np.array([1.]), np.array([1.])
    if kind == 'exp':
        return EXP_A / EXP_A.sum(), EXP_V
    if kind == 'dev':
        return np.append(CORE, DEV_A * (1. - CORE) / DEV_A.sum()), np.append(0., DEV_V)
    if not isinstance(kind, str):
        return kind         # (amplitudes, variances) given
    raise KeyError(kind)


def gauss_sum(amps, means, covs, xs, ys):
    """Sum of 2-d Gaussians on the grid xs x ys -> (len(ys), len(xs))."""
    X, Y = np.meshgrid(np.asarray(xs, float), np.asarray(ys, float))
    out = np.zeros(X.shape)
    for a, m, C in zip(amps, means, covs):
        C = np.asarray(C, float)
        det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
        dx, dy = X - m[0], Y - m[1]
        q = (C[1, 1] * dx * dx - (C[0, 1] + C[1, 0]) * dx * dy + C[0, 0] * dy * dy) / det
        out += a * np.exp(-0.5 * q) / (2. * np.pi * np.sqrt(det))
    return out


def ellipse_basis(re, e1, e2):
    """Columns: the major and minor axes (arcsec) in (RA, Dec) directions."""
    e = np.hypot(e1, e2)
    th = 0.5 * np.arctan2(e2, e1)
    ab = (1. - e) / (1. + e)
    s, c = np.sin(th), np.cos(th)
    return re * np.array([[s, -c * ab], [c, s * ab]])


def soft_to_e(logre, ee1, ee2):
    """Softened ellipse -> (re, e1, e2)."""
    ee = np.hypot(ee1, ee2)
    e = 1. - np.exp(-ee)
    if ee == 0:
        return np.exp(logre), 0., 0.
    return np.exp(logre), e * ee1 / ee, e * ee2 / ee


def softened_fracdev(f):
    return 1. / (1. + np.exp(4. * (0.5 - f)))


def unit_source(comps, x, y, psf, cdinv, box):
    """
    comps: list of (weight, profile kind, basis in arcsec or None for a point).
    psf: (amps, means, covs) in pixels.  cdinv: (RA,Dec) degrees -> pixels.
    box: (x0, x1, y0, y1).
    """
    pa, pm, pv = psf
    A, M, C = [], [], []
    for w, kind, G in comps:
        if kind == 'point':
            for a, m, v in zip(pa, pm, pv):
                A.append(w * a)
                M.append((x + m[0], y + m[1]))
                C.append(v)
            continue
        T = np.dot(cdinv, G / 3600.)
        S = np.dot(T, T.T)
        ga, gv = profile(kind)
        for b, vv in zip(ga, gv):
            for a, m, v in zip(pa, pm, pv):
                A.append(w * b * a)
                M.append((x + m[0], y + m[1]))
                C.append(vv * S + np.asarray(v))
    x0, x1, y0, y1 = box
    return gauss_sum(A, M, C, np.arange(x0, x1), np.arange(y0, y1))
