"""
P03: copies are faithful and independent, in every frozen/thawed state.

For each object of the zoo: every freeze pattern (all subsets of the flags of
the root and of its direct sub-objects one at a time, plus everything frozen),
then copy, compare type / values / flags / behaviour; then every single-value
write, bulk write, freeze operation and in-place array write on either side,
checking that the other side's values, flags and behaviour stay put.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, same
from mc import zoo as Z


def freeze_patterns(make, limit):
    """Yield (description, function applying the pattern to a fresh object)."""
    o = make()
    pats = [('none', [])]
    nodes = []

    def walk(x, path):
        if hasattr(x, 'liquid') and hasattr(x, 'getThawedParamIndices'):
            n = len(list(x.getThawedParamIndices()))
            nodes.append((path, n, hasattr(x, 'subs')))
            if hasattr(x, 'subs'):
                for i in range(n):
                    if x[i] is not None:
                        walk(x[i], path + (i,))
    walk(o, ())
    for path, n, _ in nodes:
        if n <= limit:
            subsets = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
        else:
            subsets = [(i,) for i in range(n)] + [tuple(range(n))]
        for s in subsets:
            pats.append(('%s:%s' % (path, s), [(path, i) for i in s]))
    if len(nodes) > 1:
        pats.append(('first of every node', [(p, 0) for p, n, _ in nodes if n]))
        pats.append(('last of every node', [(p, n - 1) for p, n, _ in nodes if n]))
    return pats


def at(o, path):
    for p in path:
        o = o[p]
    return o


def apply_pattern(o, pat):
    for path, i in pat:
        at(o, path).freezeParam(i)


def snapshot(item, o):
    d = item.behave(o)
    return Z.flags(o), d


def compare(item, a, b, what):
    same(b[0], a[0], what + ': frozen flags')
    same(sorted(b[1]), sorted(a[1]), what + ': observables')
    for k in a[1]:
        close(b[1][k], a[1][k], rtol=1e-5, atol=item.tol, what='%s: %s' % (what, k))


def mutations(item, o):
    """(name, function) that change the given object in place."""
    n = len(o.getAllParams())
    muts = []

    def setall(x):
        x.setAllParams([v * 1.02 + 0.003 for v in x.getAllParams()])
    if n and item.name not in ('TanWcs',):
        muts.append(('setAllParams', setall))
    for i in range(o.numberOfParams()):
        def setone(x, i=i):
            p = x.getParams()
            x.setParam(i, p[i] * 1.02 + 0.003 if item.name != 'TanWcs' else p[i] + 1e-5)
        muts.append(('setParam %d' % i, setone))
    if hasattr(o, 'liquid'):
        def fr(x):
            for i in range(len(x.liquid)):
                x.freezeParam(i)
        muts.append(('freeze all', fr))

        def th(x):
            x.thawAllParams()
        muts.append(('thaw all', th))
    if hasattr(o, 'subs'):
        for k, s in enumerate(o.subs):
            if s is not None and hasattr(s, 'liquid'):
                def fs(x, k=k):
                    x[k].freezeAllParams()
                muts.append(('freeze sub %d' % k, fs))
    if item.kind == 'image':
        def data(x):
            x.getImage()[:] += 5.
        muts.append(('pixels in place', data))

        def err(x):
            x.getInvError()[2, :] = 0.
        muts.append(('inverr in place', err))
        if o.getTime() is not None:
            muts.append(('time', lambda x: x.getTime().setValue(x.getTime().getValue() + 86400.)))
    if item.name.startswith('PixelizedPSF'):
        def px(x):
            x.img *= 2.
            x.clear_cache()
        muts.append(('psf pixels in place', px))
    if item.name == 'HybridPixelizedPSF':
        muts.append(('shift of the Gaussian part', lambda x: x.gauss.shiftBy(.5, -.25)))
        muts.append(('parameters of the Gaussian part', lambda x: x.gauss.setAllParams([v * 1.1 for v in x.gauss.getAllParams()])))
    if item.name == 'GaussianMixturePSF':
        muts.append(('shiftBy', lambda x: x.shiftBy(.5, -.25)))
    if item.name.startswith('SplineSky'):
        muts.append(('offset', lambda x: x.offset(2.)))
        muts.append(('scale', lambda x: x.scale(3.)))
        muts.append(('shift', lambda x: x.shift(1, 1)))
    if item.name == 'ConstantSky':
        muts.append(('scale', lambda x: x.scale(3.)))
        muts.append(('subtract', lambda x: x.subtract(3.)))
    if item.name.startswith('ConstantFitsWcs') or item.name == 'TanWcs':
        muts.append(('setX0Y0', lambda x: x.setX0Y0(9., 8.)))
    if item.name.startswith('NullWCS'):
        muts.append(('setPixscale', lambda x: x.setPixscale(3.)))
    if item.name.startswith('PixelizedPsfEx'):
        muts.append(('shift', lambda x: x.shift(3., 4.)))
    if hasattr(o, 'order') and hasattr(o, 'setBand'):
        muts.append(('setBand', lambda x: x.setBand('g', 5.)))
    if item.name == 'Catalog':
        muts.append(('append', lambda x: x.append(x[0].copy())))
        muts.append(('remove', lambda x: x.remove(x[1])))
    return muts


def check_item(ck, item):
    sec = ck.section(item.name)
    limit = 8 if ck.thorough else 4
    for desc, pat in freeze_patterns(item.make, limit):
        def one():
            o = item.make()
            apply_pattern(o, pat)
            s0 = snapshot(item, o)
            c = o.copy()
            expect(type(c) is type(o), 'copy has type %s, expected %s', type(c), type(o))
            expect(c is not o, 'copy returned the object itself')
            compare(item, s0, snapshot(item, c), 'copy')
            compare(item, s0, snapshot(item, o), 'original after copy')
            # copy of a copy
            compare(item, s0, snapshot(item, c.copy()), 'copy of copy')
            ck.step(3)
            for mname, mut in mutations(item, o):
                for side in (0, 1):
                    o = item.make()
                    apply_pattern(o, pat)
                    c = o.copy()
                    if side == 0:
                        mut(c)
                        compare(item, s0, snapshot(item, o), 'original after %s on the copy' % mname)
                    else:
                        mut(o)
                        compare(item, s0, snapshot(item, c), 'copy after %s on the original' % mname)
                    ck.step()
            ck.outcome((item.name, s0[0]))
        ck.case([item.name, desc], one)
        # values that were changed after construction are the ones copied
        if len(item.make().getAllParams()):
            def changed():
                for mname, mut in mutations(item, item.make()):
                    o = item.make()
                    apply_pattern(o, pat)
                    if mname.startswith('setParam') and int(mname.split()[1]) >= o.numberOfParams():
                        continue
                    mut(o)
                    if len(o.getAllParams()) == 0:
                        continue
                    compare(item, snapshot(item, o), snapshot(item, o.copy()), 'copy taken after %s' % mname)
                    ck.step()
            ck.case([item.name, desc, 'changed'], changed)


def wrappers():
    """Shifted and scaled calibrations."""
    import tractor as T
    from tractor.shifted import ShiftedPsf, ShiftedWcs, ScaledWcs, ScaledPhotoCal
    from tractor.basics import MagsPhotoCal

    def beh_scaled(o):
        d = Z.beh_params(o)
        d['p2p'] = np.array([o.positionToPixel(T.RaDecPos(r, dd)) for r, dd in [(10., 20.), (10.001, 19.998)]])
        d['cd'] = np.array(o.cdAtPixel(3., 4.))
        return d

    def beh_shifted_psf(o):
        d = Z.beh_params(o)
        for px, py in Z.PSF_PROBES:
            d['patch %g,%g' % (px, py)] = Z.dense(o.getPointSourcePatch(px, py), (-30, 41, -30, 42))
        d['radius'] = np.array(float(o.getRadius()))
        return d
    fl = [T.Flux(3.), T.Flux(-2.)]
    gm = lambda: T.GaussianMixturePSF(np.array([.7, .3]), np.array([[0., 0.], [.3, -.2]]),
                                      np.array([[[2., .3], [.3, 1.5]], [[5., -.4], [-.4, 6.]]]))
    return [Z.Item('ScaledPhotoCal', lambda: ScaledPhotoCal(T.LinearPhotoCal(2.5), .5), lambda o: Z.beh_photocal(o, fl), 'calib'),
            Z.Item('ScaledPhotoCal-mags', lambda: ScaledPhotoCal(MagsPhotoCal('g', 22.), 3.), lambda o: Z.beh_photocal(o, [T.Mags(g=20., r=21.)]), 'calib'),
            Z.Item('ShiftedPsf', lambda: ShiftedPsf(gm(), 3, -2), beh_shifted_psf, 'calib'),
            Z.Item('ShiftedPsf-pixelized', lambda: ShiftedPsf(T.PixelizedPSF(Z.psf_stamp(11)), -1, 4), beh_shifted_psf, 'calib'),
            Z.Item('ShiftedWcs', lambda: ShiftedWcs(T.ConstantFitsWcs(Z.tan(rot=20.)), 3, 2), Z.beh_wcs, 'calib', tol=1e-9),
            Z.Item('ScaledWcs', lambda: ScaledWcs(T.ConstantFitsWcs(Z.tan(rot=20.)), 2.), beh_scaled, 'calib', tol=1e-9)]


def run(ck):
    items = Z.zoo() + wrappers()
    ck.shards(range(len(items)), lambda sub, i: check_item(sub, items[i]))
    ck.assumptions.append('one small instance per class; every subset of frozen flags per node')
