"""
P01: the parameter vector contract, over all freeze/thaw histories.

Explicit-state BFS over the freeze/thaw operations of real parameter trees (a
state is the set of frozen flags of every node, reached through real calls on
freshly built objects), with a reference tree stepped in parallel; in every
state all observers are compared and every value-changing operation is probed.
"""
import collections
import itertools
import re
from mc.core import expect, fail, close, same


# ---------------------------------------------------------------- reference
class L(object):
    """Leaf: list of named scalars, each freezable."""
    def __init__(self, names, vals, steps=None, lo=None, hi=None, mx=None, ctor=None):
        n = len(vals)
        self.names = list(names)
        self.vals = list(vals)
        self.steps = list(steps or [1.] * n)
        self.lo = list(lo or [None] * n)
        self.hi = list(hi or [None] * n)
        self.mx = list(mx or [None] * n)
        self.liq = [True] * n

    def idx(self):
        return [i for i in range(len(self.vals)) if self.liq[i]]

    def allslots(self):
        return [(self, i) for i in range(len(self.vals))]

    def slots(self):
        return [(self, i) for i in self.idx()]

    def pnames(self):
        return [self.names[i] if self.names[i] is not None else 'param%i' % k
                for k, i in enumerate(self.idx())]

    def flags(self):
        return tuple(self.liq)

    def setflag(self, i, v):
        self.liq[i] = v

    def index(self, nm):
        return self.names.index(nm)

    def rec(self, names, v):
        for nm in names:
            if nm in self.names:
                self.liq[self.index(nm)] = v
        if '*' in names:
            self.liq = [v] * len(self.liq)

    def paths(self, names):
        t = False
        for nm in names:
            if nm in self.names:
                self.liq[self.index(nm)] = True
                t = True
        return t

    def staterec(self):
        return [(nm if nm is not None else 'param%i' % i, l, l)
                for i, (nm, l) in enumerate(zip(self.names, self.liq))]

    def n_things(self):
        return len(self.liq)


class S(L):
    """Scalar leaf: one value, no freeze flag of its own."""
    def __init__(self, name, val, step=1., lo=None, hi=None, mx=None):
        L.__init__(self, [name], [val], [step], [lo], [hi], [mx])

    def flags(self):
        return ()

    def rec(self, names, v):
        pass

    def paths(self, names):
        return False

    def staterec(self):
        return [(self.names[0], True, True)]


class N0(object):
    """A parameterless / None sub-object."""
    def __init__(self, none=False):
        self.none = none

    def allslots(self):
        return []

    def slots(self):
        return []

    def pnames(self):
        return []

    def flags(self):
        return ()

    def rec(self, names, v):
        pass

    def paths(self, names):
        return False

    def staterec(self):
        return []


class M(object):
    """Inner node: named (or unnamed) subs each with a flag."""
    def __init__(self, subs, prefix='param'):
        # subs: list of (name or None, node)
        self.names = [nm for nm, s in subs]
        self.subs = [s for nm, s in subs]
        self.liq = [True] * len(subs)
        self.prefix = prefix

    def nm(self, i):
        return self.names[i] if self.names[i] is not None else '%s%i' % (self.prefix, i)

    def allslots(self):
        return [x for s in self.subs for x in s.allslots()]

    def slots(self):
        return [x for s, l in zip(self.subs, self.liq) if l for x in s.slots()]

    def pnames(self):
        return ['%s.%s' % (self.nm(i), p) for i, (s, l) in enumerate(zip(self.subs, self.liq))
                if l for p in s.pnames()]

    def flags(self):
        return (tuple(self.liq),) + tuple(s.flags() for s in self.subs)

    def setflag(self, i, v):
        self.liq[i] = v

    def index(self, nm):
        return self.names.index(nm)

    def rec(self, names, v):
        for i, s in enumerate(self.subs):
            s.rec(names, v)
            if self.names[i] is not None and self.names[i] in names:
                self.liq[i] = v
        if '*' in names:
            self.liq = [v] * len(self.liq)

    def paths(self, names):
        t = False
        for i, s in enumerate(self.subs):
            if s.paths(names):
                self.liq[i] = True
                t = True
            if self.names[i] is not None and self.names[i] in names:
                self.liq[i] = True
                t = True
        return t

    def staterec(self):
        out = []
        for i, (s, l) in enumerate(zip(self.subs, self.liq)):
            out.append((self.nm(i), l, True))
            out.extend(('%s.%s' % (self.nm(i), p), a, (l and b)) for p, a, b in s.staterec())
        return out

    def n_things(self):
        return len(self.liq)


# --------------------------------------------------------------- compare
def get(node, field):
    return [getattr(n, field)[i] for n, i in node.slots()]


def getall(node, field):
    return [getattr(n, field)[i] for n, i in node.allslots()]


def eqlist(a, b, what):
    a = list(a)
    if len(a) != len(b) or any(not (x == y) for x, y in zip(a, b)):
        fail('%s: got %r, expected %r', what, a, b)


def observe(obj, m, deep=True):
    """Compare every observer of `obj` with the reference `m`."""
    n = len(m.slots())
    same(obj.numberOfParams(), n, 'numberOfParams')
    eqlist(obj.getParams(), get(m, 'vals'), 'getParams')
    eqlist(obj.getAllParams(), getall(m, 'vals'), 'getAllParams')
    eqlist(obj.getParamNames(), m.pnames(), 'getParamNames')
    eqlist(obj.getStepSizes(), get(m, 'steps'), 'getStepSizes')
    eqlist(obj.getAllStepSizes(), getall(m, 'steps'), 'getAllStepSizes')
    eqlist(obj.getLowerBounds(), get(m, 'lo'), 'getLowerBounds')
    eqlist(obj.getUpperBounds(), get(m, 'hi'), 'getUpperBounds')
    eqlist(obj.getMaxStep(), get(m, 'mx'), 'getMaxStep')
    if isinstance(m, S) or isinstance(m, N0):
        return
    eqlist([bool(x) for x in _flags1(obj)], m.liq, 'frozen/thawed indices')
    eqlist(list(obj.getThawedParamIndices()), [i for i, l in enumerate(m.liq) if l], 'getThawedParamIndices')
    eqlist(list(obj.getFrozenParamIndices()), [i for i, l in enumerate(m.liq) if not l], 'getFrozenParamIndices')
    nms = [m.nm(i) if isinstance(m, M) else m.names[i] for i in range(m.n_things())]
    named = all(x is not None for x in m.names)
    if named:
        eqlist(obj.getThawedParams(), [x for x, l in zip(nms, m.liq) if l], 'getThawedParams')
        eqlist(obj.getFrozenParams(), [x for x, l in zip(nms, m.liq) if not l], 'getFrozenParams')
        k = 0
        for i, (nm, l) in enumerate(zip(m.names, m.liq)):
            same(bool(obj.isParamFrozen(nm)), not l, 'isParamFrozen(%s)' % nm)
            same(bool(obj.isParamThawed(nm)), l, 'isParamThawed(%s)' % nm)
            same(obj.getNamedParamIndex(nm), i, 'getNamedParamIndex(%s)' % nm)
            same(obj.getLiquidIndex(nm), k if l else -1, 'getLiquidIndex(%s)' % nm)
            same(obj.getLiquidIndexOfIndex(i), k if l else -1, 'getLiquidIndexOfIndex(%d)' % i)
            k += int(l)
            if isinstance(m, L):
                same(getattr(obj, nm), m.vals[i], 'attribute %s' % nm)
    eqlist([tuple((a, bool(b), bool(c))) for a, b, c in obj.getParamStateRecursive()], m.staterec(),
           'getParamStateRecursive') if not _has_none(m) else None
    if isinstance(m, L):
        same(len(obj), n, 'len')
        eqlist(list(obj), get(m, 'vals'), 'iteration')
        for i in range(n):
            same(obj.getParam(i), get(m, 'vals')[i], 'getParam(%d)' % i)
            same(obj[i], get(m, 'vals')[i], '[%d]' % i)
    if deep and isinstance(m, M):
        for i, s in enumerate(m.subs):
            if isinstance(s, N0) and s.none:
                continue
            observe(obj[i], s)


def _has_none(m):
    if isinstance(m, M):
        return any(_has_none(s) for s in m.subs)
    return isinstance(m, N0) and m.none


def _flags1(obj):
    out = {}
    for i in obj.getThawedParamIndices():
        out[i] = True
    for i in obj.getFrozenParamIndices():
        if i in out:
            fail('parameter %d both thawed and frozen', i)
        out[i] = False
    return [out[i] for i in sorted(out)]


# --------------------------------------------------------------- operations
def locate(obj, m, path):
    for p in path:
        obj, m = obj[p], m.subs[p]
    return obj, m


def freeze_ops(m, extra_names=()):
    """Alphabet of freeze/thaw operations on a tree: (opname, path, args)."""
    ops = []
    allnames = []

    def collect(node, path):
        if isinstance(node, S) or isinstance(node, N0):
            return
        named = all(n is not None for n in node.names)
        for i in range(node.n_things()):
            ops.append(('freezeParam', path, (i,)))
            ops.append(('thawParam', path, (i,)))
        if named:
            for nm in node.names:
                if nm not in allnames:
                    allnames.append(nm)
                ops.append(('freezeParam', path, (nm,)))
                ops.append(('thawParam', path, (nm,)))
            a, b = node.names[0], node.names[-1]
            ops.append(('freezeParams', path, (a, b)))
            ops.append(('thawParams', path, (a, b)))
            ops.append(('freezeAllBut', path, (a,)))
            ops.append(('freezeAllBut', path, (b, a)))
        ops.append(('freezeAllParams', path, ()))
        ops.append(('thawAllParams', path, ()))
        if isinstance(node, M):
            for i, s in enumerate(node.subs):
                if isinstance(s, (M, L)) and not isinstance(s, S):
                    ops.append(('thawParam_obj', path, (i,)))
            for i, s in enumerate(node.subs):
                collect(s, path + (i,))
    collect(m, ())
    if isinstance(m, M):
        for nm in allnames:
            ops.append(('freezeParamsRecursive', (), (nm,)))
            ops.append(('thawParamsRecursive', (), (nm,)))
            ops.append(('thawPathsTo', (), (nm,)))
        if len(allnames) > 1:
            ops.append(('freezeParamsRecursive', (), (allnames[0], allnames[-1])))
            ops.append(('thawPathsTo', (), (allnames[0], allnames[-1])))
        ops.append(('freezeParamsRecursive', (), ('*',)))
        ops.append(('thawParamsRecursive', (), ('*',)))
        ops.append(('freezeAllRecursive', (), ()))
        ops.append(('thawAllRecursive', (), ()))
        ops.append(('thawPathsTo', (), ('no-such-name',)))
    else:
        ops.append(('freezeParamsRecursive', (), (m.names[0], m.names[-1])))
        ops.append(('thawParamsRecursive', (), (m.names[-1],)))
        ops.append(('freezeParamsRecursive', (), ('*',)))
        ops.append(('thawParamsRecursive', (), ('*',)))
        ops.append(('thawPathsTo', (), (m.names[0],)))
        ops.append(('thawPathsTo', (), ('no-such-name',)))
    return ops


def apply_freeze(obj, m, op):
    name, path, args = op
    o, node = locate(obj, m, path)

    def ix(a):
        return a if isinstance(a, int) else node.index(a)
    if name in ('freezeParam', 'thawParam'):
        getattr(o, name)(*args)
        node.setflag(ix(args[0]), name == 'thawParam')
    elif name == 'thawParam_obj':
        o.thawParam(o[args[0]])
        node.setflag(args[0], True)
    elif name in ('freezeParams', 'thawParams'):
        getattr(o, name)(*args)
        for a in args:
            node.setflag(ix(a), name == 'thawParams')
    elif name == 'freezeAllBut':
        o.freezeAllBut(*args)
        node.liq = [False] * node.n_things()
        for a in args:
            node.setflag(ix(a), True)
    elif name == 'freezeAllParams':
        o.freezeAllParams()
        node.liq = [False] * node.n_things()
    elif name == 'thawAllParams':
        o.thawAllParams()
        node.liq = [True] * node.n_things()
    elif name == 'freezeParamsRecursive':
        o.freezeParamsRecursive(*args)
        node.rec(args, False)
    elif name == 'thawParamsRecursive':
        o.thawParamsRecursive(*args)
        node.rec(args, True)
    elif name == 'freezeAllRecursive':
        o.freezeAllRecursive()
        node.rec(('*',), False)
    elif name == 'thawAllRecursive':
        o.thawAllRecursive()
        node.rec(('*',), True)
    elif name == 'thawPathsTo':
        r = o.thawPathsTo(*args)
        e = node.paths(args)
        same(bool(r), e, 'thawPathsTo%r return value' % (args,))
    else:
        raise RuntimeError(name)


def value_ops(obj, m, k):
    """All value operations enabled in this state, as closures over (obj,m)."""
    ops = []

    def setparams(o, mm):
        sl = mm.slots()
        new = [100. + k + 7. * i for i in range(len(sl))]
        o.setParams(list(new))
        for (n, i), v in zip(sl, new):
            n.vals[i] = v
    ops.append(('setParams', setparams))

    def setid(o, mm):
        o.setParams(o.getParams())
    ops.append(('setParams(getParams())', setid))

    def setall(o, mm):
        sl = mm.allslots()
        new = [500. + k + 3. * i for i in range(len(sl))]
        o.setAllParams(list(new))
        for (n, i), v in zip(sl, new):
            n.vals[i] = v
    ops.append(('setAllParams', setall))

    def setallid(o, mm):
        o.setAllParams(o.getAllParams())
    ops.append(('setAllParams(getAllParams())', setallid))

    for j in range(len(m.slots())):
        def sp(o, mm, j=j):
            n, i = mm.slots()[j]
            old = o.setParam(j, 900. + k + j)
            same(old, n.vals[i], 'setParam(%d) return value' % j)
            n.vals[i] = 900. + k + j
        ops.append(('setParam(%d)' % j, sp))

    def steps(o, mm):
        sl = mm.slots()
        new = [0.25 + k + i for i in range(len(sl))]
        o.setStepSizes(list(new))
        for (n, i), v in zip(sl, new):
            n.steps[i] = v
    ops.append(('setStepSizes', steps))

    def allsteps(o, mm):
        sl = mm.allslots()
        new = [0.5 + k + i for i in range(len(sl))]
        o.setAllStepSizes(list(new))
        for (n, i), v in zip(sl, new):
            n.steps[i] = v
    ops.append(('setAllStepSizes', allsteps))

    def mutate_result(o, mm):
        # the returned lists are copies: scribbling on them changes nothing
        for l in (o.getParams(), o.getAllParams(), o.getStepSizes(), o.getLowerBounds()):
            if isinstance(l, list):
                for i in range(len(l)):
                    l[i] = -12345.
    ops.append(('scribble on results', mutate_result))

    def attr(o, mm):
        def walk(oo, node):
            if isinstance(node, M):
                for i, s in enumerate(node.subs):
                    if not isinstance(s, N0):
                        walk(oo[i], s)
            elif isinstance(node, L) and not isinstance(node, S):
                for i, nm in enumerate(node.names):
                    if nm is None:
                        continue
                    setattr(oo, nm, 1300. + k + i)
                    node.vals[i] = 1300. + k + i
        walk(o, mm)
    ops.append(('set by attribute', attr))
    return ops


def bfs(ck, label, factory, maxdepth, sibling=True, value_depth=1):
    sec = ck.section(label, 'freeze histories up to depth %d' % maxdepth)
    _, m0 = factory()
    ops = freeze_ops(m0)

    def build(hist):
        o, m = factory()
        for op in hist:
            apply_freeze(o, m, op)
        return o, m

    # For speed every state is reached by a shortest history.
    seen = {m0.flags(): ()}
    queue = collections.deque([()])
    frontier = set()

    def init():
        o, m = factory()
        observe(o, m)
    ck.case([label, 'initial'], init)
    while queue:
        hist = queue.popleft()
        k = len(seen)

        def expand():
            for op in ops:
                o, m = build(hist)
                apply_freeze(o, m, op)
                try:
                    observe(o, m)
                except Exception as e:
                    fail('after %s: %s', op, e)
                ck.step()
                f = m.flags()
                if f not in seen:
                    if len(hist) + 1 > maxdepth:
                        frontier.add(f)
                    else:
                        seen[f] = hist + (op,)
                        queue.append(hist + (op,))
                        ck.state((label, f))
        ck.case([label, 'freeze', hist], expand)

        def probe():
            o, m = build(hist)
            vops = value_ops(o, m, k)
            names = [n for n, f in vops]
            for i, (n1, f1) in enumerate(vops):
                o, m = build(hist)
                sib, ms = factory()
                f1(o, m)
                try:
                    observe(o, m)
                    if sibling:
                        observe(sib, ms)
                except Exception as e:
                    fail('after %s: %s', n1, e)
                ck.step()
                ck.outcome((label, n1, tuple(o.getParams())))
                if value_depth > 1:
                    for n2, f2 in vops:
                        o, m = build(hist)
                        f1(o, m)
                        f2(o, m)
                        try:
                            observe(o, m)
                        except Exception as e:
                            fail('after %s, %s: %s', n1, n2, e)
                        ck.step()
            # value op, then thaw everything: frozen values still there
            for n1, f1 in vops:
                o, m = build(hist)
                f1(o, m)
                tops = [op for op in ops if op[0] in ('thawAllRecursive', 'freezeAllRecursive')
                        or (op[0] == 'thawAllParams' and op[1] == ())]
                for op in tops:
                    apply_freeze(o, m, op)
                    try:
                        observe(o, m)
                    except Exception as e:
                        fail('after %s then %s: %s', n1, op, e)
                    ck.step()
        ck.case([label, 'values', hist], probe)
    sec['bound'] = '%d freeze states expanded (%s), %d freeze ops per state' % (
        len(seen), ('depth <= %d, %d frontier states checked' % (maxdepth, len(frontier)))
        if frontier else 'closed: all reachable', len(ops))


# --------------------------------------------------------------- factories
def _classes():
    from tractor.utils import ParamList, MultiParams, ScalarParam, NpArrayParams, MogParams

    class PL2(ParamList):
        @staticmethod
        def getNamedParams():
            return dict(a=0, b=1)

    class PL3(ParamList):
        stepsizes = [0.1, 0.2, 0.3]

        @staticmethod
        def getNamedParams():
            return dict(x=0, y=1, z=2)

    class PL1(ParamList):
        @staticmethod
        def getNamedParams():
            return dict(q=0)

    class SC(ScalarParam):
        stepsize = 0.7

    class MP(MultiParams):
        @staticmethod
        def getNamedParams():
            return dict(lst=0, sca=1)

    class MP3(MultiParams):
        @staticmethod
        def getNamedParams():
            return dict(left=0, mid=1, right=2)

    class NA(NpArrayParams):
        @staticmethod
        def getNamedParams():
            return dict(n0=0, n1=1, n2=2, n3=3)
    return locals()


def factories(ck):
    C = _classes()
    out = []

    def pl3():
        o = C['PL3'](1., 2., 3.)
        o.lowers = [0., None, -5.]
        o.uppers = [None, 9., 7.]
        o.maxstep = [0.5, None, 2.]
        return o, L('xyz', [1., 2., 3.], [.1, .2, .3], [0., None, -5.], [None, 9., 7.], [.5, None, 2.])
    out.append(('ParamList3', pl3, 99, 2))

    def nparr():
        o = C['NA'](__import__('numpy').array([[1., 2.], [3., 4.]]))
        return o, L(['n0', 'n1', 'n2', 'n3'], [1., 2., 3., 4.])
    out.append(('NpArrayParams', nparr, 99, 1))

    def mog():
        import numpy as np
        o = C['MogParams'](np.array([1.]), np.array([[2., 3.]]), np.array([[[4., 0.5], [0.5, 5.]]]))
        return o, L(['amp0', 'meanx0', 'meany0', 'varxx0', 'varyy0', 'varxy0'],
                    [1., 2., 3., 4., 5., 0.5])
    out.append(('MogParams', mog, 99, 1))

    def nested():
        pl = C['PL2'](1., 2.)
        pl.lowers = [0., None]
        pl.uppers = [3., 4.]
        pl.maxstep = [None, .25]
        sc = C['SC'](3.)
        sc.lower, sc.upper, sc.maxstep = -1., 10., 0.5
        inner = C['MP'](pl, sc)
        r = C['PL1'](5.)
        o = C['MP3'](inner, C['SC'](4.), r)
        m = M([('left', M([('lst', L('ab', [1., 2.], None, [0., None], [3., 4.], [None, .25])),
                           ('sca', S('SC', 3., .7, -1., 10., .5))])),
               ('mid', S('SC', 4., .7)),
               ('right', L('q', [5.]))])
        return o, m
    out.append(('nested MultiParams', nested, 4, 1))

    def withnone():
        o = C['MP3'](C['PL2'](1., 2.), None, C['SC'](4.))
        m = M([('left', L('ab', [1., 2.])), ('mid', N0(True)), ('right', S('SC', 4., .7))])
        return o, m
    out.append(('MultiParams with None', withnone, 99, 1))

    # the same name at two levels (recursive operations must reach both)
    def dup():
        class Q(C['MultiParams']):
            @staticmethod
            def getNamedParams():
                return dict(a=0, b=1)
        o = Q(C['PL2'](1., 2.), C['PL2'](3., 4.))
        m = M([('a', L('ab', [1., 2.])), ('b', L('ab', [3., 4.]))])
        return o, m
    out.append(('repeated names', dup, 99, 1))

    from tractor import (PointSource, PixPos, Flux, Catalog, NanoMaggies, ExpGalaxy,
                         DevGalaxy, Image, Tractor, NCircularGaussianPSF, ConstantSky, LinearPhotoCal, NullWCS,
                         CompositeGalaxy, FixedCompositeGalaxy)
    from tractor.ellipses import EllipseESoft
    from tractor.galaxy import SoftenedFracDev, GalaxyShape

    def from_real(o, names, cls=L):
        n = len(o.getAllParams())
        return L(names, o.getAllParams(), list(o.getAllStepSizes()), list(o.getLowerBounds()),
                 list(o.getUpperBounds()), list(o.getMaxStep()))

    def sc_real(o, name):
        return S(name, o.getAllParams()[0], o.getStepSizes()[0], o.getLowerBounds()[0],
                 o.getUpperBounds()[0], o.getMaxStep()[0])

    def psrc():
        p, f = PixPos(3., 4.), Flux(10.)
        m = M([('pos', from_real(p, ['x', 'y'])), ('brightness', sc_real(f, 'Flux'))])
        return PointSource(p, f), m
    out.append(('PointSource', psrc, 99, 2))

    def catalog():
        p, f = PixPos(3., 4.), NanoMaggies(g=10., r=20.)
        order = ['g', 'r']
        m0 = M([('pos', from_real(p, ['x', 'y'])), ('brightness', from_real(f, order))])
        p2, f2 = PixPos(5., 6.), Flux(9.)
        m1 = M([('pos', from_real(p2, ['x', 'y'])), ('brightness', sc_real(f2, 'Flux'))])
        return Catalog(PointSource(p, f), PointSource(p2, f2)), M([(None, m0), (None, m1)], 'source')
    out.append(('Catalog', catalog, 2 if not ck.thorough else 99, 1))

    def galaxy():
        p, f, e = PixPos(3., 4.), Flux(10.), GalaxyShape(2., .5, 30.)
        m = M([('pos', from_real(p, ['x', 'y'])), ('brightness', sc_real(f, 'Flux')),
               ('shape', from_real(e, ['re', 'ab', 'phi']))])
        return ExpGalaxy(p, f, e), m
    out.append(('ExpGalaxy', galaxy, 2 if not ck.thorough else 99, 1))

    def fixedcomp():
        p, f, fd = PixPos(3., 4.), Flux(10.), SoftenedFracDev(0.4)
        e, d = EllipseESoft(.7, .1, .2), GalaxyShape(2., .5, 30.)
        m = M([('pos', from_real(p, ['x', 'y'])), ('brightness', sc_real(f, 'Flux')),
               ('fracDev', sc_real(fd, 'SoftenedFracDev')),
               ('shapeExp', from_real(e, ['logre', 'ee1', 'ee2'])),
               ('shapeDev', from_real(d, ['re', 'ab', 'phi']))])
        return FixedCompositeGalaxy(p, f, fd, e, d), m
    out.append(('FixedCompositeGalaxy', fixedcomp, 1 if not ck.thorough else 3, 1))

    def image():
        import numpy as np
        from tractor.psf import GaussianMixturePSF
        psf = NCircularGaussianPSF([1.5], [1.])
        sky = ConstantSky(3.)
        pc = LinearPhotoCal(2.)
        im = Image(data=np.zeros((4, 5)), inverr=np.ones((4, 5)), psf=psf, sky=sky, photocal=pc)
        nm = sc_real(pc, pc.getParamNames()[0])
        mpsf = M([('sigmas', L([None], [1.5], list(psf.sigmas.getAllStepSizes()))),
                  ('weights', L([None], [1.], list(psf.weights.getAllStepSizes())))])
        m = M([('psf', mpsf), ('wcs', N0()), ('photocal', nm), ('sky', sc_real(sky, sky.getParamNames()[0]))])
        return im, m
    out.append(('Image', image, 2 if not ck.thorough else 99, 1))

    def tractor():
        im, mi = image()
        src, ms = psrc()
        return Tractor([im], [src]), M([('images', M([(None, mi)], 'image')), ('catalog', M([(None, ms)], 'source'))])
    out.append(('Tractor', tractor, 1 if not ck.thorough else 3, 1))
    return out


def run(ck):
    ck.assumptions += [
        'values are drawn from a small fixed alphabet; the contract is value-independent',
        'trees up to 4 levels (Tractor > Catalog/Images > source/image > leaf)']
    facs = factories(ck)

    def shard(sub, i):
        label, fac, cap, vd = facs[i]
        if ck.thorough:
            vd = 2 if cap == 99 and label not in ('Catalog', 'ExpGalaxy', 'Image') else 1
        bfs(sub, label, fac, cap, value_depth=vd)
    # biggest first
    ck.shards(range(len(facs))[::-1], shard)
    zoo_section(ck, 0)


# ------------------------------------------------- every parameterised class
def _nodes(o, pre=()):
    """Freezable (path, owner, index, leaf slots) at every level, and the number of leaves."""
    if hasattr(o, 'subs'):
        out, n = [], 0
        for i, s in enumerate(o.subs):
            if s is None:
                continue
            sub, k = _nodes(s, pre + (i,)) if hasattr(s, 'getAllParams') else ([], 0)
            out += [(p, w, j, [x + n for x in sl]) for p, w, j, sl in sub]
            out.append((pre + (i,), o, i, list(range(n, n + k))))
            n += k
        return out, n
    k = len(o.getAllParams())
    if hasattr(o, 'freezeParam') and hasattr(o, 'liquid'):
        return [(pre + (i,), o, i, [i]) for i in range(k)], k
    return [], k


def zoo_pattern(ck, item, pat):
    o = item.make()
    nodes, n = _nodes(o)
    full = dict((f, list(getattr(o, f)())) for f in ACC)
    for f in ACC:
        same(len(full[f]), n, 'length of %s when everything is thawed' % f)
    vals = list(o.getAllParams())
    dead = set()
    for k in pat:
        nodes[k][1].freezeParam(nodes[k][2])
        dead |= set(nodes[k][3])
    live = [i for i in range(n) if i not in dead]
    for f in ACC:
        got, exp = list(getattr(o, f)()), [full[f][i] for i in live]
        if f == 'getParamNames':
            # unnamed parameters are called param0, param1, ... by thawed position
            got, exp = [[re.sub(r'param\d+$', 'param', x) for x in y] for y in (got, exp)]
        eqlist(got, exp, f)
    same(o.numberOfParams(), len(live), 'numberOfParams')
    eqlist(list(o.getAllParams()), vals, 'getAllParams')
    if hasattr(o, 'getAllStepSizes'):
        # (the sign of a step is the class's own business)
        eqlist([abs(x) for x in o.getAllStepSizes()], [abs(x) for x in full['getStepSizes']],
               'magnitude of getAllStepSizes')
    # set: exactly the thawed ones change
    p = [float(v) * (1. + 1e-5) + 1e-6 for v in o.getParams()]
    o.setParams(p)
    exp = list(vals)
    for i, v in zip(live, p):
        exp[i] = v
    got = list(o.getAllParams())
    for i in range(n):
        if i in dead:
            same(got[i], exp[i], 'frozen parameter %d after setParams' % i)
        else:
            close(got[i], exp[i], rtol=1e-9, atol=1e-12, what='parameter %d after setParams' % i)
    for k, i in enumerate(live):
        cur = list(o.getAllParams())
        new = cur[i] * (1. - 2e-5) - 1e-6
        old = o.setParam(k, new)
        close(old, cur[i], rtol=1e-9, atol=1e-12, what='value returned by setParam(%d)' % k)
        cur[i] = new
        got = list(o.getAllParams())
        for j in range(n):
            if j == i:
                close(got[j], cur[j], rtol=1e-9, atol=1e-12, what='parameter %d after setParam(%d)' % (j, k))
            else:
                same(got[j], cur[j], 'parameter %d after setParam(%d)' % (j, k))
    ck.step(2 + len(live))
    ck.outcome((item.name, tuple(live)))


ACC = ['getParams', 'getStepSizes', 'getParamNames', 'getLowerBounds', 'getUpperBounds', 'getMaxStep']


def zoo_section(ck, n):
    from mc.zoo import zoo
    ck.section('every class', 'all freeze patterns (up to 8 nodes), else all single, double and all-but-one/two patterns, of every parameterised class')

    def sh(sub, item):
        nodes, k = _nodes(item.make())
        N = len(nodes)
        if N <= (10 if ck.thorough else 8):
            pats = [c for r in range(N + 1) for c in itertools.combinations(range(N), r)]
        else:
            small = [c for r in range(3) for c in itertools.combinations(range(N), r)]
            pats = small + [tuple(i for i in range(N) if i not in c) for c in small]
        for p in pats:
            sub.case((item.name, p), zoo_pattern, sub, item, p)
    ck.shards([i for i in zoo() if hasattr(i.make(), 'getStepSizes')], sh)
