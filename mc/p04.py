"""
P04: Gaussian priors.  For every freeze state of each parameter tree and every
subset of a menu of prior terms (including repeated terms on one parameter),
the log-prior value, its least-squares (sparse) form and the listed
(index, mu, sigma) terms must all be those of the reference sum, in thawed
index space.
"""
import itertools
import numpy as np
from mc.core import expect, fail, close, same


class Leaf(object):
    """Model of one prior-carrying list of parameters."""
    def __init__(self, path, names):
        self.path = path
        self.names = names


def trees():
    import tractor as T
    from tractor.utils import ParamList, MultiParams, ScalarParam
    from tractor.ellipses import EllipseESoft, EllipseE
    from tractor.galaxy import ExpGalaxy

    class L3(ParamList):
        @staticmethod
        def getNamedParams():
            return dict(a=0, b=1, c=2)

    class Duo(MultiParams):
        @staticmethod
        def getNamedParams():
            return dict(first=0, mid=1, last=2)

    def list3():
        return L3(1., -2., 3.5)

    def duo():
        return Duo(L3(1., -2., 3.5), ScalarParam(7.), EllipseESoft(.5, .2, -.3))

    def nested():
        return MultiParams(MultiParams(T.PixPos(3., 4.)), None, L3(1., 2., 3.))

    def pt():
        return T.PointSource(T.RaDecPos(10., 20.), T.NanoMaggies(g=3., r=5., order=['g', 'r']))

    def gal():
        return ExpGalaxy(T.PixPos(3., 4.), T.Flux(5.), EllipseE(2., .3, -.1))

    def tr():
        from mc.zoo import probe_image
        im = probe_image(photocal=T.LinearPhotoCal(1.), sky=T.ConstantSky(1.))
        t = T.Tractor([im], [T.PointSource(T.PixPos(3., 4.), T.Flux(9.)), gal()])
        return t
    # name, make, [(path, [names])] of the prior-carrying leaves
    return [
        ('list', list3, [((), ['a', 'b', 'c'])]),
        ('group', duo, [((0,), ['a', 'b', 'c']), ((2,), ['logre', 'ee1', 'ee2'])]),
        ('nested', nested, [((0, 0), ['x', 'y']), ((2,), ['a', 'b', 'c'])]),
        ('pointsource', pt, [((0,), ['ra', 'dec']), ((1,), ['g', 'r'])]),
        ('galaxy', gal, [((0,), ['x', 'y']), ((2,), ['re', 'e1', 'e2'])]),
        ('tractor', tr, [((1, 0, 0), ['x', 'y']), ((1, 1, 0), ['x', 'y']), ((1, 1, 2), ['re', 'e1', 'e2'])]),
    ]


def at(o, path):
    for p in path:
        if hasattr(o, 'catalog') and hasattr(o, 'images'):
            o = (o.images, o.catalog)[p]
        else:
            o = o[p]
    return o


def nodes(o, path=()):
    """(path, number of flags) of every node with freeze flags."""
    out = []
    if hasattr(o, 'catalog') and hasattr(o, 'images'):
        out.append((path, 2))
        # (images themselves only as a whole)
        for k, s in enumerate((o.images, o.catalog)):
            out += nodes(s, path + (k,)) if k == 1 else []
        return out
    if hasattr(o, 'liquid') and hasattr(o, 'getFrozenParamIndices'):
        n = len(list(o.getThawedParamIndices())) + len(list(o.getFrozenParamIndices()))
        out.append((path, n))
        if hasattr(o, 'subs'):
            for k, s in enumerate(o.subs):
                if s is not None:
                    out += nodes(s, path + (k,))
    return out


class Model(object):
    """Thawed index of (leaf path, raw index) under a freeze state; also which leaves count."""
    def __init__(self, obj, frozen):
        self.frozen = frozen
        self.index = {}
        self.n = 0
        self.active = set()
        self.walk(obj, ())

    def walk(self, o, path):
        if hasattr(o, 'catalog') and hasattr(o, 'images'):
            for k, s in enumerate((o.images, o.catalog)):
                if (path, k) not in self.frozen:
                    self.walk(s, path + (k,))
            return
        if hasattr(o, 'subs'):
            for k, s in enumerate(o.subs):
                if s is not None and (path, k) not in self.frozen:
                    self.walk(s, path + (k,))
            return
        self.active.add(path)
        if hasattr(o, 'liquid'):
            for k in range(len(o.liquid)):
                if (path, k) not in self.frozen:
                    self.index[(path, k)] = self.n
                    self.n += 1
        else:
            for k in range(o.numberOfParams()):
                self.index[(path, k)] = self.n
                self.n += 1


MENU = [(0, 1.5, 2.), (1, -1., .5), (2, 0., .25), (0, 2.5, 4.), (1, 3., 3.)]


def check_state(ck, name, make, leaves, frozen, terms, legal=True):
    o = make()
    for (path, nm, mu, sig) in terms:
        at(o, path).addGaussianPrior(nm, mu, sig)
    for path, k in frozen:
        at(o, path).freezeParam(k)
    M = Model(o, set(frozen))
    same(o.numberOfParams(), M.n, 'harness: number of thawed parameters')
    p0 = list(o.getParams())
    raw = {}
    for path, names in leaves:
        for i, nm in enumerate(names):
            raw[(path, nm)] = (i, at(o, path).getAllParams()[i])

    def ref(p):
        """Reference log-prior at thawed values p."""
        s = 0.
        for (path, nm, mu, sig) in terms:
            if path not in M.active:
                continue
            i, v = raw[(path, nm)]
            li = M.index.get((path, i))
            if li is not None:
                v = p[li]
            s += -0.5 * ((v - mu) / sig)**2
        return s
    close(o.getLogPrior(), ref(p0), rtol=1e-9, atol=1e-9, what='log-prior')
    # value follows the thawed parameters
    for j in range(M.n):
        p = list(p0)
        p[j] += 0.01
        o.setParams(p)
        close(o.getLogPrior(), ref(p), rtol=1e-9, atol=1e-9, what='log-prior after moving thawed parameter %d' % j)
        o.setParams(p0)
        ck.step()
    # listed terms
    exp = []
    for path, names in leaves:
        for (tp, nm, mu, sig) in terms:
            if tp == path:
                li = M.index.get((path, raw[(path, nm)][0]))
                if li is not None:
                    exp.append((li, mu, sig))
    got = [(int(a), float(b), float(c)) for a, b, c in o.getGaussianPriors()]
    same(sorted(got), sorted(exp), 'listed Gaussian terms (index, mu, sigma)')
    # least squares form
    X = o.getLogPriorDerivatives()
    n = M.n
    if X is None:
        X = ([], [], [], [], [])
    r, c, v, b, mu = X
    rows = [int(x) for ri in r for x in ri]
    N = max(rows) + 1 if rows else 0
    same(N, len(exp), 'number of prior rows')
    A = np.zeros((N, max(n, 1)))
    for ri, ci, vi in zip(r, c, v):
        for rij, vij in zip(ri, vi):
            expect(0 <= int(ci) < n, 'prior column %r out of range (%d parameters)', ci, n)
            A[int(rij), int(ci)] += vij
    bb = np.array([x for bi in b for x in bi], float)
    mm = np.array([x for mi in mu for x in mi], float)
    same(len(bb), N, 'length of the prior residual vector')
    same(len(mm), N, 'length of the prior mean vector')
    # expected as a multiset of rows
    E = []
    for li, m_, sig in exp:
        E.append((li, round(1. / sig, 9), round((m_ - p0[li]) / sig, 9), round(m_, 9)))
    G = []
    for k in range(N):
        nzc = np.flatnonzero(A[k])
        expect(len(nzc) == 1, 'prior row %d touches %d parameters', k, len(nzc))
        G.append((int(nzc[0]), round(float(A[k, nzc[0]]), 9), round(float(bb[k]), 9), round(float(mm[k]), 9)))
    same(sorted(G), sorted(E), 'least-squares prior rows (column, 1/sigma, (mu-p)/sigma, mu)')
    # gradient
    if N:
        g = A.T.dot(bb)
        for j in range(n):
            p = list(p0)
            h = 1e-5
            p[j] += h
            up = ref(p)
            p[j] -= 2 * h
            dn = ref(p)
            close(g[j], (up - dn) / (2 * h), rtol=1e-5, atol=1e-6, what='prior gradient wrt thawed parameter %d' % j)
    close(o.getParams(), p0, what='parameters after asking for priors')
    ck.step(3)
    ck.outcome((name, tuple(sorted(G)), round(ref(p0), 6)))
    ck.state((name, tuple(sorted(frozen)), tuple(terms)))


def subsets(xs):
    xs = list(xs)
    for k in range(len(xs) + 1):
        for s in itertools.combinations(xs, k):
            yield s


def unknown(cls, fr, bad):
    import tractor as T
    from tractor.ellipses import EllipseE, EllipseESoft
    o = dict(PixPos=lambda: T.PixPos(1., 2.), RaDecPos=lambda: T.RaDecPos(1., 2.), EllipseE=lambda: EllipseE(1., .1, .2), EllipseESoft=lambda: EllipseESoft(1., .1, .2),
             NanoMaggies=lambda: T.NanoMaggies(g=1., r=2.), Mags=lambda: T.Mags(g=1., r=2.))[cls]()
    if fr:
        o.freezeParam(0)
    l0, g0 = o.getLogPrior(), list(o.getGaussianPriors())
    try:
        o.addGaussianPrior(bad, 5., .1)
    except KeyError:
        pass
    else:
        fail('%s accepted a prior on %r' % (cls, bad))
    same(o.getLogPrior(), l0, 'log-prior')
    same(list(o.getGaussianPriors()), g0, 'prior terms')


def run(ck):
    TR = trees()

    def shard(sub, it):
        name, make, leaves = TR[it]
        allflags = [(p, k) for p, n in nodes(make()) for k in range(n)]
        menu = []
        for li, (path, names) in enumerate(leaves):
            m = MENU if sub.thorough and len(leaves) == 1 else (MENU[:4] if len(leaves) == 1 else MENU[:3])
            for (k, mu, sig) in m:
                if k < len(names):
                    menu.append((path, names[k], mu + li, sig))
        menu = menu[:6]
        # a second term on the first parameter
        menu.append((leaves[0][0], leaves[0][1][0], -0.5, 0.7))
        full = len(allflags) <= (14 if sub.thorough else 11)
        fstates = list(subsets(allflags)) if full else [s for s in subsets(allflags) if len(s) <= (3 if sub.thorough else 2) or len(s) >= len(allflags) - 1]
        sub.section(name, '%d freeze states (%s of %d flags) x prior-term sets' % (
            len(fstates), 'all subsets' if full else 'up to 2-3 frozen, or all/all but one', len(allflags)))
        tsets = list(subsets(menu)) if sub.thorough else [s for s in subsets(menu) if len(s) in (0, 1, 2, len(menu))]
        if not sub.thorough and len(fstates) * len(tsets) > 12000:
            tsets = [s for s in tsets if len(s) != 2]
        if sub.thorough and len(fstates) * len(tsets) > 200000:
            tsets = [s for s in tsets if len(s) <= 3 or len(s) == len(menu)]
        for fr in fstates:
            for ts in tsets:
                sub.case([name, fr, ts], check_state, sub, name, make, leaves, fr, ts)
    ck.shards(range(len(TR)), shard)

    ck.section('unknown names', 'a prior on a parameter which does not exist is refused and changes nothing')
    for cls in ('PixPos', 'RaDecPos', 'EllipseE', 'EllipseESoft', 'NanoMaggies', 'Mags'):
        for fr in (False, True):
            for bad in ('nosuch', 'flux', ''):
                ck.case('unknown %s %s %r' % (cls, fr, bad), unknown, cls, fr, bad)
    ck.section('legality', 'illegal values give -inf at every enclosing level unless the owner is frozen')
    from tractor.ellipses import EllipseE
    from tractor.galaxy import ExpGalaxy
    from tractor.sersic import SersicGalaxy, SersicIndex
    import tractor as T
    vals = [-1.5, -1., -.8, -.6, 0., .6, .8, 1., 1.2]
    for re, e1, e2, fz in itertools.product([-1., -1e-3, 0., 2.], vals, vals, range(4)):
        def one():
            e = EllipseE(re, e1, e2)
            e.addGaussianPrior('e1', 0.1, 0.5)
            legal = re >= 0 and e1**2 + e2**2 < 1
            g = ExpGalaxy(T.PixPos(3., 4.), T.Flux(5.), e)
            cat = T.Catalog(g, T.PointSource(T.PixPos(1., 2.), T.Flux(1.)))
            if fz & 1:
                e.freezeParam('e1')
            if fz & 2:
                g.freezeParam('shape')
            same(bool(e.isLegal()), bool(legal), 'isLegal')
            lp = -0.5 * ((e1 - .1) / .5)**2 if legal else -np.inf
            close(e.getLogPrior(), lp, what='shape log-prior')
            if fz & 2:
                lp = 0.
            close(g.getLogPrior(), lp, what='galaxy log-prior')
            close(cat.getLogPrior(), lp, what='catalog log-prior')
            ck.step(4)
        # points on the unit circle up to rounding are ambiguous: skip them
        if abs(e1**2 + e2**2 - 1.) < 1e-12 and not (abs(e1) == 1. or abs(e2) == 1.):
            continue
        ck.case([re, e1, e2, fz], one)
    for n in [0., .28, .29, .3, 1., 4., 6.2, 6.3, 6.31, 9.]:
        def one():
            s = SersicIndex(n)
            legal = .29 <= n <= 6.3
            same(bool(s.isLegal()), legal, 'isLegal')
            close(s.getLogPrior(), 0. if legal else -np.inf, what='Sersic index log-prior')
            g = SersicGalaxy(T.PixPos(3., 4.), T.Flux(5.), EllipseE(2., 0., 0.), s)
            close(g.getLogPrior(), 0. if legal else -np.inf, what='Sersic galaxy log-prior')
            g.freezeParam('sersicindex')
            close(g.getLogPrior(), 0., what='log-prior with the index frozen')
            ck.step(3)
        ck.case(['sersic', n], one)
    ck.assumptions.append('priors are added before freezing and at most 7 terms; values on small grids')
