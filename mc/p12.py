"""
P12: bounds and maximum step sizes are respected by the constrained optimisers.

A: every combination of start (on / inside the bounds), bounds, maximum step
   and direction for 1-2 (3) parameters and several step-length lists: the
   trial steps against a reference.
B: a log-probability that records every point at which it is evaluated: no
   trial outside the bounds or beyond the maximum step, no matter what it
   answers; the limit flags of the loop.
C: real fits whose optimum lies outside the bounds.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, same, texture


def classes():
    from tractor.constrained_optimizer import ConstrainedOptimizer
    from tractor.dense_optimizer import ConstrainedDenseOptimizer
    from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
    return [('constrained', ConstrainedOptimizer), ('dense', ConstrainedDenseOptimizer), ('smarter', SmarterDenseOptimizer)]


ALPHAS = [[1.], [.25, .5, 1., 2.], None]
DEFAULT = list(2.**np.arange(-10, 1)) + [np.sqrt(2.), 2.]


def make(p0, lo, hi, mx, answer=None):
    import tractor as T
    from tractor.utils import ParamList
    log = []

    class Bounded(ParamList):
        def getLogPrior(self):
            p = list(self.getParams())
            log.append(p)
            return answer(p) if answer else 0.
    s = Bounded(*p0)
    s.lowers = list(lo)
    s.uppers = list(hi)
    s.maxstep = list(mx)
    return T.Tractor([], [s]), log


def reference(p0, x, lo, hi, mx, alphas):
    """[(alpha, max-step-limited, bound-limited)]: the trial steps."""
    out = []
    for a in alphas:
        amax = min([m / abs(d) for m, d in zip(mx, x) if m is not None and d != 0] or [np.inf])
        sl = a > amax * (1 + 1e-12)
        a1 = min(a, amax)
        b = [np.inf]
        for p, d, l, u in zip(p0, x, lo, hi):
            if d < 0 and l is not None:
                b.append((l - p) / d)
            if d > 0 and u is not None:
                b.append((u - p) / d)
        hl = a1 > min(b) * (1 + 1e-12)
        a2 = min(a1, min(b))
        if a2 < 1e-8:
            break
        out.append((a2, sl, hl))
        if sl:
            break
    return out


def check_steps(ck, name, cls, p0, x, lo, hi, mx, ai):
    alphas = ALPHAS[ai]
    tr, log = make(p0, lo, hi, mx)
    opt = cls()
    got = opt.getParameterSteps(tr, np.array(x, float), alphas)
    ref = reference(p0, x, lo, hi, mx, alphas if alphas is not None else DEFAULT)
    close(tr.getParams(), p0, rtol=0, atol=0, what='parameters after listing the steps')
    same(len(got), len(ref), 'number of trial steps')
    for (a, p, sl, hl), (ra, rsl, rhl) in zip(got, ref):
        close(a, ra, rtol=1e-9, atol=1e-12, what='step length')
        close(p, [q + ra * d for q, d in zip(p0, x)], rtol=1e-9, atol=1e-9, what='trial parameters')
        for q, v, l, u, m in zip(p0, p, lo, hi, mx):
            expect(l is None or v >= l, 'trial value %r below the bound %r', v, l)
            expect(u is None or v <= u, 'trial value %r above the bound %r', v, u)
            expect(m is None or abs(v - q) <= m * (1 + 1e-9), 'trial step %r larger than the maximum step %r', v - q, m)
        expect(bool(sl) == rsl, 'maximum-step flag %r, expected %r', sl, rsl)
        expect(bool(hl) == rhl, 'bound flag %r, expected %r', hl, rhl)
        ck.step()
    if ref:
        expect(bool(opt.stepLimited) == any(r[1] for r in ref), 'step-limited flag')
    ck.state((p0, x, lo, hi, mx, ai))
    ck.outcome(len(ref))


def check_monitor(ck, name, cls, p0, x, lo, hi, mx, target):
    """Every evaluation stays inside; the accepted point is the best trial."""
    ans = lambda p: -sum((a - b)**2 for a, b in zip(p, target))
    tr, log = make(p0, lo, hi, mx, ans)
    opt = cls()
    l0 = tr.getLogProb()
    del log[:]
    dlnp, alpha = opt.tryUpdates(tr, np.array(x, float))
    for p in log:
        for q, v, l, u, m in zip(p0, p, lo, hi, mx):
            expect(l is None or v >= l, 'evaluated at %r, below the bound %r', v, l)
            expect(u is None or v <= u, 'evaluated at %r, above the bound %r', v, u)
            expect(m is None or abs(v - q) <= m * (1 + 1e-9), 'evaluated a step of %r, more than the maximum %r', v - q, m)
    expect(dlnp >= 0, 'negative gain')
    close(ans(list(tr.getParams())) - l0, dlnp, rtol=1e-9, atol=1e-9, what='reported gain')
    best = 0.
    for (a, sl, hl) in reference(p0, x, lo, hi, mx, DEFAULT):
        l = ans([q + a * d for q, d in zip(p0, x)]) - l0
        if l < best - 1:
            break
        best = max(best, l)
    close(dlnp, best, rtol=1e-7, atol=1e-7, what='gain of the best trial step')
    ck.step(len(log))
    ck.outcome(round(dlnp, 6))


def check_flags(ck, name, cls, p0, lo, hi, mx, dirs, target):
    """The loop with scripted directions: which limits it says it hit."""
    ans = lambda p: -sum((a - b)**2 for a, b in zip(p, target))
    tr, log = make(p0, lo, hi, mx, ans)
    alphas = [.25, .5, 1.]
    calls = []

    class Scripted(cls):
        def optimize(self, tractor, **kw):
            d = dirs[len(calls)]
            calls.append(d)
            dlnp, alpha = self.tryUpdates(tractor, np.array(d, float), alphas=list(alphas))
            return dlnp, d, alpha
    R = Scripted().optimize_loop(tr, steps=len(dirs))
    # reference
    p = list(p0)
    last = ever = False
    n = 0
    for d in dirs:
        n += 1
        ref = reference(p, d, lo, hi, mx, alphas)
        limited = any(r[1] for r in ref) or not ref
        if not ref:
            # cut by a maximum step even before the bound ends it?
            last = ever = True
        l0 = ans(p)
        best, pb = 0., p
        for (a, sl, hl) in ref:
            ever = ever or hl
            q = [u + a * v for u, v in zip(p, d)]
            g = ans(q) - l0
            if abs(g - best) < 1e-9 or abs(g - (best - 1.)) < 1e-9:
                return      # a tie: rounding decides
            if g < best - 1.:
                break
            if g > best:
                best, pb, last = g, q, hl
        p = pb
        if not limited and best <= 0. or limited and best <= 1e-6:
            break
    same(len(calls), n, 'number of steps')
    close(tr.getParams(), p, rtol=1e-9, atol=1e-9, what='parameters after the loop')
    same((bool(R['hit_limit']), bool(R['ever_hit_limit'])), (last, ever), 'reported (last step hit a limit, any step hit a limit)')
    ck.step(n)
    ck.outcome((last, ever, n))


def check_exact(ck, name, cls, p, d, bound, upper, second):
    """Cut exactly at the bound: never past it, not even by a rounding error."""
    p0, x = [p], [d]
    lo, hi, mx = [None], [None], [None]
    (hi if upper else lo)[0] = bound
    if second:
        # a second parameter which is cut first or later
        p0, x, lo, hi, mx = p0 + [.3], x + [second], lo + [None], hi + [.9], mx + [None]
    seen = []
    tr, log = make(p0, lo, hi, mx, lambda q: seen.append(list(q)) or float(q[0] if upper else -q[0]))
    opt = cls()
    steps = opt.getParameterSteps(tr, np.array(x, float), [1.])
    opt.tryUpdates(tr, np.array(x, float), alphas=[.5, 1.])
    for q in [s[1] for s in steps] + seen + [list(tr.getParams())]:
        for v, l, u in zip(q, lo, hi):
            expect(l is None or v >= l, 'trial value %r below the bound %r', v, l)
            expect(u is None or v <= u, 'trial value %r above the bound %r', v, u)
    ck.step()


SHAPE = (11, 11)


def check_fit(ck, name, cls, true, start, lo, hi, mx, which, loop):
    """A point source (flux and position) fit with bounds."""
    import tractor as T
    from tractor.patch import ModelMask
    from mc import scene
    im = scene.image(shape=SHAPE, psf=scene.PSF1, seed=2)
    data = scene.ref_image([scene.source('point', *true)], im)
    img = scene.build_image(im, data=data)
    src = scene.build_source(scene.source('point', *start))
    seen = []

    class Watch(T.Tractor):
        def getLogProb(self, *a, **k):
            seen.append(list(self.getParams()))
            return super(Watch, self).getLogProb(*a, **k)
    opt = cls()
    tr = Watch([img], [src], optimizer=opt)
    tr.freezeParam('images')
    src.pos.lowers, src.pos.uppers, src.pos.maxstep = list(lo[:2]), list(hi[:2]), list(mx[:2])
    fl = src.brightness
    fl.lower, fl.upper, fl.maxstep = lo[2], hi[2], mx[2]
    for n, l, u, m, gl, gu, gm in zip('xyf', lo, hi, mx, tr.getLowerBounds(), tr.getUpperBounds(), tr.getMaxStep()):
        same((gl, gu, gm), (l, u, m), 'bounds of ' + n)
    tr.setModelMasks([{src: ModelMask(0, 0, SHAPE[1], SHAPE[0])}])
    keep = [0, 1, 2]
    if which == 'flux':
        src.freezeAllBut('brightness')
        keep = [2]
    elif which == 'pos':
        src.freezeAllBut('pos')
        keep = [0, 1]
    lo, hi, mx = [[v[i] for i in keep] for v in (lo, hi, mx)]
    lnp = tr.getLogProb()
    for it in range(4):
        p = list(tr.getParams())
        del seen[:]
        if loop:
            R = tr.optimize_loop(shared_params=False, steps=30)
        else:
            tr.optimize(shared_params=False)
        for s in seen + [list(tr.getParams())]:
            for q, v, l, u, m in zip(p, s, lo, hi, mx):
                expect(l is None or v >= l, 'parameter value %r below its lower bound %r', v, l)
                expect(u is None or v <= u, 'parameter value %r above its upper bound %r', v, u)
                if not loop:
                    expect(m is None or abs(v - q) <= m * (1 + 1e-6), 'parameter moved by %r, maximum step %r', v - q, m)
        l2 = tr.getLogProb()
        expect(l2 >= lnp - 1e-9 * abs(lnp), 'log-probability fell')
        lnp = l2
        ck.step(len(seen))
    if which == 'flux' and loop:
        # one parameter, convex: the bounded optimum is the clamped true flux
        t = true[2]
        if lo[0] is not None:
            t = max(t, lo[0])
        if hi[0] is not None:
            t = min(t, hi[0])
        close(tr.getParams()[0], t, rtol=1e-3, atol=1e-2, what='bounded flux')
        clamped = (t != true[2])
        if clamped:
            expect(R['hit_limit'] and R['ever_hit_limit'], 'fit that ended on a bound does not report it: %r', R)
    ck.outcome(tuple(np.round(tr.getParams(), 2)))


# the limits built into the library's own parameters: name -> (lower, upper, maximum step)
LIMITS = {'pix': [(None, None, 1.)] * 2,
          'radec': [(None, None, None)] * 2,
          'flux': [(None, None, None)],
          'fluxes': [(None, None, None)] * 2,
          'e': [(0., None, 1.), (-1., 1., .1), (-1., 1., .1)],
          'soft': [(None, None, 1.), (None, None, .1), (None, None, .1)],
          'gs': [(None, None, None)] * 3,
          'n': [(.29, 6.3, .1)]}


def build_source(kind, shape):
    import tractor as T
    from tractor.galaxy import ExpGalaxy, FixedCompositeGalaxy, GalaxyShape
    from tractor.sersic import SersicGalaxy, SersicIndex
    from tractor.ellipses import EllipseE, EllipseESoft
    from tractor.pointsource import PointSource
    sh = {'e': lambda: EllipseE(.4, .85, -.93), 'soft': lambda: EllipseESoft(-.5, .85, -.93), 'gs': lambda: GalaxyShape(.4, .5, 20.)}[shape]
    if kind == 'point':
        return PointSource(T.PixPos(3., 4.), T.Flux(5.)), ['pix', 'flux']
    if kind == 'pointrd':
        return PointSource(T.RaDecPos(3., 4.), T.Fluxes(g=1., r=2.)), ['radec', 'fluxes']
    if kind == 'exp':
        return ExpGalaxy(T.PixPos(3., 4.), T.Flux(5.), sh()), ['pix', 'flux', shape]
    if kind == 'sersic':
        return SersicGalaxy(T.PixPos(3., 4.), T.Flux(5.), sh(), SersicIndex(6.27)), ['pix', 'flux', shape, 'n']
    if kind == 'sersiclow':
        return SersicGalaxy(T.PixPos(3., 4.), T.Flux(5.), sh(), SersicIndex(.31)), ['pix', 'flux', shape, 'n']


def check_builtin(ck, name, cls, kind, shape, frozen, sign, big, ai):
    """Trial steps of the library's own sources against their limits."""
    import tractor as T
    src, parts = build_source(kind, shape)
    lim = []
    for i, nm in enumerate(parts):
        if i in frozen:
            src.freezeParam(i)
        else:
            lim += LIMITS[nm]
    tr = T.Tractor([], [src])
    p0 = list(tr.getParams())
    same(len(p0), len(lim), 'number of parameters')
    lo, hi, mx = zip(*lim)
    for got, want, what in ((tr.getLowerBounds(), lo, 'lower bounds'), (tr.getUpperBounds(), hi, 'upper bounds'),
                            (tr.getMaxStep(), mx, 'maximum steps')):
        same(list(got), list(want), what)
    alphas = ALPHAS[ai]
    ref = DEFAULT if alphas is None else alphas
    # one parameter at a time moves far, the others a little
    for j in range(len(p0)):
        x = [sign * (big if k == j else .004 * (1 + k)) for k in range(len(p0))]
        opt = cls()
        got = opt.getParameterSteps(tr, np.array(x), alphas)
        want = reference(p0, x, lo, hi, mx, ref)
        same(len(got), len(want), 'number of trial steps along parameter %i' % j)
        for (a, p, sl, hl), (ra, rsl, rhl) in zip(got, want):
            close(p, [q + ra * d for q, d in zip(p0, x)], rtol=1e-9, atol=1e-9, what='trial parameters')
            for v, l, u in zip(p, lo, hi):
                expect((l is None or v >= l) and (u is None or v <= u), 'trial value %r outside [%r, %r]', v, l, u)
            expect(bool(sl) == rsl and bool(hl) == rhl, 'limit flags %r, expected %r', (sl, hl), (rsl, rhl))
            ck.step()
    ck.state((kind, shape, frozen, sign, big, ai))


def run(ck):
    def shF(sub, item):
        name, cls = item
        sub.section('D limit flags', 'the loop with all pairs of scripted directions x bounds x maximum steps x optima')
        D = [-3., -.4, .7, 2.]
        for lo, hi in itertools.product([None, 0.], [None, 2.]):
            for m in (None, .3, 1.):
                for p in (0., .5, 2.):
                    for d1, d2 in itertools.product(D, repeat=2):
                        for t in (5., -3., 1.1, 1.9):
                            sub.case(('flags', name, p, lo, hi, m, d1, d2, t), check_flags, sub, name, cls, [p], [lo], [hi], [m],
                                     [[d1], [d2]], [t])
                            if sub.thorough or m != 1.:
                                sub.case(('flags2', name, p, lo, hi, m, d1, d2, t), check_flags, sub, name, cls, [p, 1.], [lo, None],
                                         [hi, 1.5], [m, None], [[d1, .4], [d2, -.3], [d1, .9]], [t, 1.2])
        sub.section('E rounding', 'bounds reached by steps whose rounding overshoots; exactly-reached limits')
        V = [.1, .2, .3, .6, .7, .9, 1.1, 1. / 3]
        for p in V:
            for d in (.1, .3, .7, 3., 7., 1e3):
                for b in V + [1.3, 1.7, 2.3]:
                    for second in (0, .31, 7.7):
                        if b > p:
                            sub.case(('exact', name, p, d, b, second), check_exact, sub, name, cls, p, d, b, True, second)
                        elif b < p:
                            sub.case(('exact', name, p, -d, b, second), check_exact, sub, name, cls, p, -d, b, False, second)
        # a step of exactly the maximum step is allowed and not flagged
        for a in (.25, 1.):
            for m in (.5, 2.):
                sub.case(('exactmax', name, a, m), check_steps, sub, name, cls, [1.], [m / a], [None], [None], [m], 1 if a == .25 else 0)
    ck.shards(classes(), shF)
    ck.section('F built-in limits', 'point sources and galaxies with 3 kinds of shape x every frozen set x 2 directions x 3 lengths x 3 step lists')
    for name, cls in classes():
        for kind, shape in [('point', 'e'), ('pointrd', 'e')] + list(itertools.product(['exp', 'sersic', 'sersiclow'], ['e', 'soft', 'gs'])):
            n = {'point': 2, 'pointrd': 2, 'exp': 3}.get(kind, 4)
            for k in range(n):
                for frozen in itertools.combinations(range(n), k):
                    for sign, big, ai in itertools.product((1., -1.), (.05, .3, 40.), range(len(ALPHAS))):
                        ck.case(('builtin', name, kind, shape, frozen, sign, big, ai), check_builtin, ck, name, cls, kind, shape, frozen,
                                sign, big, ai)
    starts = [0., 1., 2.]
    one = []
    for p, lo, hi in itertools.product([0., .5, 2.], [None, 0.], [None, 2.]):
        if lo is not None and p < lo or hi is not None and p > hi:
            continue
        for d in (-3., -.4, 0., .7, 2.):
            for m in (None, .3, 10.):
                one.append((p, d, lo, hi, m))
    ck.section('A trial steps', 'all (start, direction, bounds, max step) of 1 and 2 parameters (%d each) x 3 step lists' % len(one))

    def shA(sub, item):
        name, cls, chunk = item
        second = one if sub.thorough else one[::3]
        for o in chunk:
            for ai in range(len(ALPHAS)):
                a = [(v,) for v in o]
                sub.case(('one', name, o, ai), check_steps, sub, name, cls, *([list(v) for v in a] + [ai]))
            if name != 'constrained' and not sub.thorough:
                continue
            for o2 in second:
                args = [[u, v] for u, v in zip(o, o2)]
                for ai in range(len(ALPHAS)):
                    sub.case(('two', name, o, o2, ai), check_steps, sub, name, cls, *(args + [ai]))
    items = [(n, c, one[i::8]) for n, c in classes() for i in range(8)]
    ck.shards(items, shA)

    ck.section('B monitored searches', 'every evaluation point of the line search, for a grid of optima')

    def shB(sub, item):
        name, cls, chunk = item
        second = one[::2] if sub.thorough else one[::9]
        for o in chunk:
            for o2 in second:
                args = [[u, v] for u, v in zip(o, o2)]
                for target in ([3., 0.], [-1., 1.], [.5, .5]):
                    sub.case(('mon', name, o, o2, target), check_monitor, sub, name, cls, *(args + [target]))
    ck.shards(items, shB)

    ck.section('C real fits', 'point-source fits with true value inside, on and outside the bounds')
    fits = []
    for tf, sf in itertools.product([50., -20., 5.], [0., 30., 80.]):
        for lo, hi in itertools.product([None, 0.], [None, 40., 90.]):
            if hi is not None and sf > hi:
                continue
            for mx in (None, 4.):
                fits.append(('flux', (5.2, 4.9, tf), (5.2, 4.9, sf), (None, None, lo), (None, None, hi), (None, None, mx)))
    for dx, dy in itertools.product([0., 1.2, -1.1], [0., .8]):
        for b in (None, .5):
            for mx in (None, .2):
                lo = (None if b is None else 5. - b, None, 0.)
                hi = (None if b is None else 5. + b, None if b is None else 5.25, None)
                for which in ('pos', 'all'):
                    fits.append((which, (5. + dx, 5. + dy, 60.), (5., 5., 40.), lo, hi, (mx, mx, None)))

    def shC(sub, item):
        name, cls, chunk = item
        for which, true, start, lo, hi, mx in chunk:
            for loop in (False, True):
                sub.case(('fit', name, which, true, start, lo, hi, mx, loop), check_fit, sub, name, cls, true, start, lo, hi, mx, which, loop)
    ck.shards([(n, c, fits[i::4]) for n, c in classes() for i in range(4)], shC)
    ck.assumptions.append('starting values lie within the bounds; a start outside its bounds is unspecified and not explored')
