"""
P11: optimisation never makes things worse.

A: the line search of every optimiser against every sequence of environment
   answers (log-probability better / equal / slightly worse / much worse /
   -inf / NaN at each trial step): the accepted step is the best of those
   tried, the reported gain and step length describe the state left behind,
   rejected searches restore the start exactly.
B: the optimisation loop against every sequence of per-step gains.
C: full optimisation steps and loops on real scenes from a grid of starting
   points with every optimiser and option: the log-probability never falls,
   the reported gain is the actual one, frozen parameters and data are not
   touched, nothing happens when there is nothing to fit.
"""
import itertools
import numpy as np
from mc import scene
from mc.core import expect, fail, close, same, texture


def optimizers():
    from tractor.lsqr_optimizer import LsqrOptimizer
    from tractor.constrained_optimizer import ConstrainedOptimizer
    from tractor.dense_optimizer import ConstrainedDenseOptimizer
    from tractor.smarter_dense_optimizer import SmarterDenseOptimizer
    return [('lsqr', LsqrOptimizer), ('constrained', ConstrainedOptimizer),
            ('dense', ConstrainedDenseOptimizer), ('smarter', SmarterDenseOptimizer)]


ANSWERS = [('better', 2.), ('bit-better', .25), ('equal', 0.), ('bit-worse', -.5), ('much-worse', -3.),
           ('minus-inf', -np.inf), ('nan', np.nan)]
# a larger menu for shorter sequences: big gains, a fall of exactly 1 (allowed) and of a bit more, +inf
MORE = ANSWERS + [('much-better', 6.), ('one-worse', -1.), ('worse', -1.5), ('plus-inf', np.inf)]

P0 = [1.5, -2., 0.]
X = [.5, -3., 0.]


def scripted(alphas, answers, base=-10., p0=P0, x=X):
    """A Tractor whose log-probability is a table over the trial points."""
    import tractor as T
    from tractor.utils import ParamList
    log = []
    table = {}
    for a, v in zip(alphas, answers):
        table[tuple(np.round([p + a * d for p, d in zip(p0, x)], 6))] = base + v

    class Scripted(ParamList):
        def getLogPrior(self):
            k = tuple(np.round(self.getParams(), 6))
            log.append(k)
            if k == tuple(np.round(p0, 6)):
                return base
            return table.get(k, -1e9)
    tr = T.Tractor([], [Scripted(*p0)])
    return tr, log, table


def check_search(ck, name, cls, alphas, answers):
    ans = [dict(MORE)[a] for a in answers]
    tr, log, table = scripted(alphas, ans)
    opt = cls()
    dlnp, alpha = opt.tryUpdates(tr, np.array(X), alphas=list(alphas))
    # reference: try in order; stop at a non-finite or a much worse one
    best, abest, tried = 0., None, 0
    for a, v in zip(alphas, ans):
        tried += 1
        if not np.isfinite(v):
            break
        if v < best - 1.:
            break
        if v > best:
            best, abest = v, a
    p = tr.getParams()
    if abest is None:
        close(p, P0, rtol=0, atol=0, what='parameters after a rejected line search')
        expect(dlnp == 0. and alpha == 0., 'rejected line search reports gain %r with step %r', dlnp, alpha)
    else:
        close(p, [a + abest * b for a, b in zip(P0, X)], rtol=1e-12, atol=1e-12, what='parameters after the line search')
        close(dlnp, best, rtol=1e-12, atol=1e-12, what='reported gain')
        close(alpha, abest, rtol=1e-12, atol=1e-12, what='reported step length')
    ck.step(tried)
    ck.state((answers,))
    ck.outcome((alpha, dlnp))


GAINS = [0., 1e-7, 1e-6, .5, 5.]


def check_loop(ck, name, cls, gains, limited, dchisq, steps):
    """optimize_loop against every sequence of per-step gains."""
    import tractor as T
    calls = []

    class Scripted(cls):
        def optimize(self, tractor, **kw):
            i = len(calls)
            calls.append(kw)
            if limited is not None and limited[i % len(limited)]:
                self.stepLimited = True
            return gains[i] if i < len(gains) else 0., [1.], 1.
    tr = T.Tractor([], [])
    kw = {}
    if steps is not None:
        kw.update(steps=steps)
    R = Scripted().optimize_loop(tr, dchisq=dchisq, shared_params=False, **kw)
    n = 0
    lim = steps if steps is not None else 1000
    for i, g in enumerate(list(gains) + [0.]):
        if n == lim:
            break
        n += 1
        if limited is not None and limited[i % len(limited)]:
            if g <= 1e-6:
                break
        elif g <= dchisq:
            break
    same(len(calls), n, 'number of optimisation steps for gains %s' % (gains,))
    expect(all(c.get('shared_params') is False for c in calls), 'options are not passed on')
    same(R['steps'], n - 1, 'index of the last step')
    ck.step(n)
    ck.outcome(n)


def check_stops(ck, name, cls, answers, oks):
    """The line search when the caller may stop it (check_step)."""
    alphas = [.125, .5, 1.]
    ans = [dict(MORE)[a] for a in answers]
    tr, log, table = scripted(alphas, ans)
    opt = cls()
    asked = []

    def cb(optimizer=None, tractor=None, X=None, alpha=None, **kw):
        asked.append((alpha, tuple(np.round(tractor.getParams(), 9))))
        return oks[len(asked) - 1]
    dlnp, alpha = opt.tryUpdates(tr, np.array(X), alphas=alphas, check_step=cb)
    best, abest, n = 0., None, 0
    for a, v, ok in zip(alphas, ans, oks):
        n += 1
        if not ok or not np.isfinite(v) or v < best - 1.:
            break
        if v > best:
            best, abest = v, a
    same([a for a, p in asked], alphas[:n], 'step lengths shown to the callback')
    for a, p in asked:
        close(p, [q + a * d for q, d in zip(P0, X)], rtol=1e-8, what='parameters shown to the callback')
    close(tr.getParams(), [q + (abest or 0.) * d for q, d in zip(P0, X)], rtol=1e-12, atol=1e-12, what='parameters after the line search')
    close(dlnp, best, rtol=1e-12, atol=1e-12, what='reported gain')
    close(alpha, abest or 0., rtol=1e-12, what='reported step length')
    ck.step(n)
    ck.outcome((alpha, dlnp))


def check_loop_stops(ck, name, cls, gains, oks):
    import tractor as T
    calls = []

    class Scripted(cls):
        def optimize(self, tractor, **kw):
            calls.append(kw)
            i = len(calls) - 1
            return gains[i] if i < len(gains) else 0., [1. + i], .5 + i
    tr = T.Tractor([], [])
    asked = []

    def cb(optimizer=None, tractor=None, dlnp=None, X=None, alpha=None, **kw):
        asked.append((dlnp, list(X), alpha))
        return oks[len(asked) - 1] if len(asked) <= len(oks) else True
    R = Scripted().optimize_loop(tr, check_step=cb)
    n = 0
    for i, g in enumerate(list(gains) + [0.]):
        n += 1
        if i < len(oks) and not oks[i]:
            break
        if g <= 0.:
            break
    same(len(calls), n, 'number of optimisation steps')
    same(R['steps'], n - 1, 'index of the last step')
    same(asked, [(gains[i] if i < len(gains) else 0., [1. + i], .5 + i) for i in range(n)], 'what the callback was shown')
    ck.step(n)
    ck.outcome(n)


def check_loop_default(ck, name, cls, n):
    """Left to itself the loop runs until a step gains nothing."""
    import tractor as T
    calls = []

    class Scripted(cls):
        def optimize(self, tractor, **kw):
            calls.append(kw)
            return (1. if len(calls) < n else 0.), [1.], 1.
    R = Scripted().optimize_loop(T.Tractor([], []))
    same(len(calls), n, 'number of optimisation steps')
    same(R['steps'], n - 1, 'index of the last step')
    ck.step(n)


SHAPE = (12, 13)


def build(kinds, nim, opt, start, sky, masks):
    import tractor as T
    truth = [scene.source(k, *[(6.3, 5.8), (3.2, 8.4)][i], flux=[100., 60.][i]) for i, k in enumerate(kinds)]
    ims = [scene.image(shape=SHAPE, sky=1., seed=1, zero=[(5, 6), (2, 2)]),
           scene.image(shape=(11, 10), psf=scene.PSF1, dx=-1.5, dy=.5, scale=2., sky=-1., seed=2)][:nim]
    timgs = [scene.build_image(im, data=scene.ref_image(truth, im) + .3 * texture(im['shape'], im['seed'])) for im in ims]
    S = []
    for s in truth:
        s = dict(s)
        s['x'] += start[0]
        s['y'] -= .5 * start[0]
        s['flux'] *= start[1]
        if s['kind'] not in ('point',):
            s['shape'] = (s['shape'][0] * start[2],) + s['shape'][1:]
        S.append(s)
    tr = T.Tractor(timgs, [scene.build_source(s) for s in S], optimizer=opt)
    if not sky:
        tr.freezeParam('images')
    else:
        for im in tr.images:
            im.freezeAllBut('sky')
    if masks:
        from tractor.patch import ModelMask
        tr.setModelMasks([dict((s, ModelMask(1, 1, im.shape[1] - 3, im.shape[0] - 2)) for s in tr.catalog) for im in timgs])
    return tr


STARTS = [(0., 1., 1.), (.3, .7, 1.2), (-1., 0., .6), (1.5, 5., 1.5), (4., -1., 2.)]


def check_scene(ck, name, cls, kinds, nim, start, sky, masks, kw, frozen, loop):
    opt = cls()
    tr = build(kinds, nim, opt, start, sky, masks)
    for si, nm in frozen:
        if si < len(kinds) and hasattr(tr.catalog[si], nm):
            tr.catalog[si].freezeParam(nm)
    fmask = frozen_mask(tr)
    frozen_before = np.array(tr.getAllParams())[fmask]
    data = [(im.getImage().copy(), im.getInvError().copy()) for im in tr.images]
    names = list(tr.getParamNames())
    lnp = tr.getLogProb()
    nsteps = 3
    for istep in range(nsteps):
        p = np.array(tr.getParams())
        if loop and istep == nsteps - 1:
            R = tr.optimize_loop(shared_params=False, steps=12, **kw)
            expect(isinstance(R, dict) and R['steps'] <= 12, 'loop result %r', R)
            l2 = tr.getLogProb()
            expect(l2 >= lnp - 1e-9 * abs(lnp), 'log-probability fell in optimize_loop: %r -> %r', lnp, l2)
        else:
            r = tr.optimize(shared_params=False, **kw)
            same(len(r), 3, 'result length')
            dlnp, x, alpha = r
            l2 = tr.getLogProb()
            expect(dlnp >= 0., 'negative gain %r', dlnp)
            close(l2 - lnp, dlnp, rtol=1e-6, atol=1e-6 * max(1., abs(lnp)), what='reported gain')
            if len(p) and x is not None and len(x):
                same(len(x), len(p), 'length of the update')
                if dlnp > 0:
                    close(tr.getParams(), p + alpha * np.array(x), rtol=1e-5, atol=1e-6, what='parameters = start + step * update')
                else:
                    close(tr.getParams(), p, rtol=0, atol=0, what='parameters after a rejected step')
            else:
                close(tr.getParams(), p, rtol=0, atol=0, what='parameters with nothing to fit')
                expect(dlnp == 0 and alpha == 0, 'gain %r, step %r with nothing to fit', dlnp, alpha)
        lnp = l2
        ck.step()
    expect(np.isfinite(lnp), 'log-probability %r', lnp)
    same(list(tr.getParamNames()), names, 'parameter names')
    close(np.array(tr.getAllParams())[fmask], frozen_before, rtol=0, atol=0, what='frozen parameters')
    for im, (d, ie) in zip(tr.images, data):
        expect(np.array_equal(im.getImage(), d) and np.array_equal(im.getInvError(), ie), 'image data changed')
    ck.outcome(round(lnp, 1))


def frozen_mask(tr):
    """Which of all parameters are frozen (found by marking the thawed ones)."""
    before = tr.getAllParams()
    p = tr.getParams()
    tr.setParams([v + 1e3 for v in p])
    marked = tr.getAllParams()
    tr.setParams(p)
    return np.array([a == b for a, b in zip(before, marked)], bool)


def run(ck):
    alphas = [.125, .5, 1., 2.] if not ck.thorough else [.125, .25, .5, 1., 2.]
    ck.section('A line search', 'all answer sequences of length %d over %d answers, 4 optimisers' % (len(alphas), len(ANSWERS)))
    names = [a[0] for a in ANSWERS]

    def shA(sub, item):
        name, cls = item
        for seq in itertools.product(names, repeat=len(alphas)):
            # runs that stop early make the tail irrelevant; keep one tail only
            sub.case(('search', name) + seq, check_search, sub, name, cls, alphas, seq)
        a3 = [.25, 1., 2.] if not sub.thorough else [.125, .25, 1., 2.]
        for seq in itertools.product([a[0] for a in MORE], repeat=len(a3)):
            sub.case(('more', name) + seq, check_search, sub, name, cls, a3, seq)
    ck.shards(optimizers(), shA)
    # the default step lengths
    ck.section('A2 default steps', 'one-step answer at each of the default step lengths')
    dflt = list(2.**np.arange(-10, 1)) + [np.sqrt(2.), 2.]
    for name, cls in optimizers():
        for i in range(len(dflt)):
            for stop in ('bit-worse', 'much-worse', 'nan'):
                seq = tuple(['bit-better'] * i + ['better'] + [stop] * (len(dflt) - i - 1))
                ck.case(('default', name, i, stop), check_search, ck, name, cls, dflt, seq)
    ck.section('A3 callbacks', 'all answer sequences of length 3 x all answers of a caller-supplied stop callback; loop likewise')
    for name, cls in optimizers():
        if name != 'lsqr':
            for seq in itertools.product(['better', 'bit-better', 'bit-worse', 'much-worse', 'nan'], repeat=3):
                for oks in itertools.product([True, False], repeat=3):
                    ck.case(('stop', name, seq, oks), check_stops, ck, name, cls, seq, oks)
            for gains in itertools.product([0., .5, 5.], repeat=3):
                for oks in itertools.product([True, False], repeat=3):
                    ck.case(('loopstop', name, gains, oks), check_loop_stops, ck, name, cls, gains, oks)
        for n in (1, 2, 7, 40):
            ck.case(('loopdefault', name, n), check_loop_default, ck, name, cls, n)
    N = 4 if not ck.thorough else 5
    ck.section('B loop', 'all gain sequences of length %d x thresholds x step budgets' % N)
    for name, cls in optimizers():
        for gains in itertools.product(GAINS, repeat=N):
            for dchisq in (0., 1.):
                for steps in (None, 2, N):
                    lims = [None] if name == 'lsqr' else [None, (True,), (True, False)]
                    for lim in lims:
                        ck.case(('loop', name, gains, dchisq, steps, lim), check_loop, ck, name, cls, gains, lim, dchisq, steps)
    ck.section('C scenes', 'kinds x images x starts x sky x masks x options x frozen members, every optimiser')
    items = []
    kindsets = [('point',), ('exp',), ('point', 'gauss')]
    if ck.thorough:
        kindsets += [('dev',), ('comp',), ('exp', 'point'), ('fixcomp',), ('expsoft',)]
    for name, cls in optimizers():
        for kinds in kindsets:
            for nim in (1, 2):
                items.append((name, cls, kinds, nim))

    FROZEN = [(), ((0, 'pos'),), ((0, 'brightness'), (1, 'brightness')), ((0, 'pos'), (0, 'brightness'), (0, 'shape'), (1, 'pos'), (1, 'brightness'), (1, 'shape'))]

    def shC(sub, item):
        name, cls, kinds, nim = item
        for start in STARTS:
            if 'expsoft' in kinds and start is STARTS[-1]:
                continue      # an unbounded softened radius runs away (overflows): not claimed
            for sky in (False, True):
                for masks in (False, True):
                    for fi, fr in enumerate(FROZEN):
                        kws = [{}, dict(priors=False), dict(scale_columns=False)]
                        if name in ('lsqr', 'constrained'):
                            kws.append(dict(damp=.5))
                        kws.append(dict(alphas=[.1, .3, 1.]))
                        if not sub.thorough and fi:
                            kws = kws[:1]
                        for ki, kw in enumerate(kws):
                            if name == 'smarter' and (sky or len(kinds) > 1 or not masks):
                                continue      # documented as one source with one mask per image
                            sub.case(('scene', name, kinds, nim, start, sky, masks, fi, ki), check_scene, sub, name, cls, kinds, nim, start,
                                     sky, masks, kw, fr, ki == 0)
    ck.shards(items, shC)
    ck.assumptions.append('the line search is judged on the log-probabilities the trial points really have; the environment is a table over trial points')
