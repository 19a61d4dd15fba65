"""
P02: container edits keep every member's identity, value and frozen flag.

Closed BFS over member sequences (up to 3 members from a pool of 4, each
frozen or thawed) through append / prepend / extend / remove / item
assignment / freeze / thaw / copy on a plain group, a Catalog, the Images of
a Tractor, and a Tractor's own add/remove calls; the reference is a list of
(member, flag).
"""
import collections
from mc.core import expect, fail, same, raises

POOL = 4
MAXLEN = 3


def run(ck):
    import numpy as np
    from tractor import PointSource, PixPos, Flux, Catalog, Images, Image, Tractor, NCircularGaussianPSF, ConstantSky
    from tractor.utils import MultiParams, ParamList
    maxlen = 4 if ck.thorough else MAXLEN
    pool = 5 if ck.thorough else POOL

    def src(k):
        s = PointSource(PixPos(10. * k + 1, 10. * k + 2), Flux(10. * k + 3))
        # a member-level frozen state that container edits must not disturb
        if k == 1:
            s.freezeParam('pos')
        if k == 2:
            s.brightness = Flux(77.)
            s.pos.freezeParam('x')
        return s

    def img(k):
        im = Image(data=np.zeros((3, 3)) + k, inverr=np.ones((3, 3)),
                   psf=NCircularGaussianPSF([1. + k], [1.]), sky=ConstantSky(100. + k))
        if k == 1:
            im.freezeParam('psf')
        return im

    def plist(k):
        class P2(ParamList):
            @staticmethod
            def getNamedParams():
                return dict(u=0, v=1)
        p = P2(float(k), 50. + k)
        if k == 2:
            p.freezeParam('u')
        return p

    kinds = [
        ('group', plist, lambda xs: MultiParams(*xs), lambda o: o, 'param', None),
        ('Catalog', src, lambda xs: Catalog(*xs), lambda o: o, 'source', None),
        ('Images', img, lambda xs: Images(*xs), lambda o: o, 'image', None),
        ('Tractor', src, lambda xs: Tractor([], Catalog(*xs)), lambda o: o.getCatalog(), 'source', 'tractor'),
        ('TractorImages', img, lambda xs: Tractor(list(xs), []), lambda o: o.getImages(), 'image', 'tractor-images'),
    ]

    def shard(sub, i):
        explore(sub, kinds[i], pool, maxlen)
    ck.shards(range(len(kinds)), shard)
    ck.assumptions.append('members drawn from a pool of %d distinct objects; container length <= %d' % (pool, maxlen))


def explore(ck, kind, pool, maxlen):
    label, make, ctor, cont, prefix, special = kind
    sec = ck.section(label)

    def fresh():
        return [make(k) for k in range(pool)]

    def enabled(state):
        used = [k for k, f in state]
        free = [k for k in range(pool) if k not in used]
        ops = []
        n = len(state)
        if n < maxlen:
            for k in free:
                ops.append(('append', k))
                ops.append(('prepend', k))
        if n + 2 <= maxlen and len(free) >= 2:
            ops.append(('extend', (free[0], free[1])))
            ops.append(('extend', (free[-1], free[0])))
        ops.append(('extend', ()))
        for k in used:
            ops.append(('remove', k))
        for k in free[:1]:
            ops.append(('remove-absent', k))
            for i in range(n):
                ops.append(('setitem', (i, k)))
        for i in range(n):
            ops.append(('freeze', i))
            ops.append(('thaw', i))
            ops.append(('thaw-obj', i))
        ops.append(('freezeAll', None))
        ops.append(('thawAll', None))
        ops.append(('copy', None))
        if special == 'tractor':
            if n < maxlen:
                for k in free[:2]:
                    ops.append(('addSource', k))
            if n + 2 <= maxlen and len(free) >= 2:
                ops.append(('addSources', (free[0], free[1])))
            for k in used:
                ops.append(('removeSource', k))
            ops.append(('setCatalog', None))
        if special == 'tractor-images' and n < maxlen:
            for k in free[:2]:
                ops.append(('addImage', k))
        return ops

    def apply(obj, members, state, op):
        name, a = op
        c = cont(obj)
        st = list(state)
        if name == 'append' or name == 'addSource' or name == 'addImage':
            (c.append if name == 'append' else getattr(obj, name))(members[a])
            st.append((a, True))
        elif name == 'prepend':
            c.prepend(members[a])
            st = [(a, True)] + st
        elif name in ('extend', 'addSources'):
            arg = [members[k] for k in a]
            (c.extend if name == 'extend' else obj.addSources)(arg)
            st += [(k, True) for k in a]
            same(len(arg), len(a), 'argument list length after extend')
        elif name in ('remove', 'removeSource'):
            (c.remove if name == 'remove' else obj.removeSource)(members[a])
            st = [x for x in st if x[0] != a]
        elif name == 'remove-absent':
            expect(raises(lambda: c.remove(members[a])), 'removing an absent member did not raise')
        elif name == 'setitem':
            i, k = a
            c[i] = members[k]
            st[i] = (k, st[i][1])
        elif name == 'freeze':
            c.freezeParam(a)
            st[a] = (st[a][0], False)
        elif name == 'thaw':
            c.thawParam(a)
            st[a] = (st[a][0], True)
        elif name == 'thaw-obj':
            c.thawParam(members[st[a][0]])
            st[a] = (st[a][0], True)
        elif name == 'freezeAll':
            c.freezeAllParams()
            st = [(k, False) for k, f in st]
        elif name == 'thawAll':
            c.thawAllParams()
            st = [(k, True) for k, f in st]
        elif name == 'copy':
            c2 = c.copy()
            check(c2, [m.copy() for m in members], members, st, identity=False)
        elif name == 'setCatalog':
            # hand the tractor a catalog object made elsewhere; its flags come along
            obj.setCatalog(c)
        return obj, tuple(st)

    def flagsof(o):
        if not hasattr(o, 'getThawedParamIndices'):
            return None
        return (tuple(o.getThawedParamIndices()), tuple(o.getFrozenParamIndices()))

    def check(c, members, orig, st, identity=True):
        same(len(c), len(st), 'len')
        lst = list(c)
        for i, (k, f) in enumerate(st):
            if identity:
                expect(lst[i] is members[k], 'member %d is not the expected object %d', i, k)
                expect(c[i] is members[k], 'item %d is not the expected object %d', i, k)
                same(c.index(members[k]), i, 'index of member %d' % k)
            same(list(lst[i].getParams()), list(orig[k].getParams()), 'member %d values' % i)
            same(list(lst[i].getAllParams()), list(orig[k].getAllParams()), 'member %d all values' % i)
            same(flagsof(lst[i]), flagsof(orig[k]), "member %d's own frozen flags" % i)
        th = [i for i, (k, f) in enumerate(st) if f]
        fz = [i for i, (k, f) in enumerate(st) if not f]
        same(list(c.getThawedParamIndices()), th, 'thawed members')
        same(list(c.getFrozenParamIndices()), fz, 'frozen members')
        exp = [v for k, f in st if f for v in orig[k].getParams()]
        same(list(c.getParams()), exp, 'getParams')
        same(c.numberOfParams(), len(exp), 'numberOfParams')
        same(list(c.getAllParams()), [v for k, f in st for v in orig[k].getAllParams()], 'getAllParams')
        same(list(c.getParamNames()), ['%s%i.%s' % (prefix, i, nm) for i, (k, f) in enumerate(st) if f
                                       for nm in orig[k].getParamNames()], 'getParamNames')
        if hasattr(c, 'getThawedSources'):
            a = list(c.getThawedSources())
            b = list(c.getFrozenSources())
            same(len(a), len(th), 'number of thawed sources')
            same(len(b), len(fz), 'number of frozen sources')
            if identity:
                expect(all(x is members[st[i][0]] for x, i in zip(a, th)), 'thawed sources')
                expect(all(x is members[st[i][0]] for x, i in zip(b, fz)), 'frozen sources')
        # a write through the container lands in the right members
        new = [1000. + j for j in range(len(exp))]
        old = list(c.getParams())
        c.setParams(list(new))
        same(list(c.getParams()), new, 'set/get round trip')
        j = 0
        for i, (k, f) in enumerate(st):
            m = c[i]
            if f:
                n = m.numberOfParams()
                same(list(m.getParams()), new[j:j + n], 'member %d after setParams' % i)
                j += n
        c.setParams(old)
        same([list(m.getAllParams()) for m in c], [list(orig[k].getAllParams()) for k, f in st], 'after restore')

    def build(hist):
        members = fresh()
        obj = ctor([])
        st = ()
        for op in hist:
            obj, st = apply(obj, members, st, op)
        return obj, members, st

    seen = {(): ()}
    q = collections.deque([()])
    orig = fresh()
    while q:
        hist = q.popleft()

        def expand():
            _, _, st0 = build(hist)
            for op in enabled(st0):
                obj, members, st = build(hist)
                try:
                    obj, st = apply(obj, members, st, op)
                    check(cont(obj), members, orig, st)
                    if special:
                        # the owner's flat vector is its container's vector
                        same(list(obj.getParams()), list(cont(obj).getParams()), 'owner getParams')
                        pre = 'catalog.' if special == 'tractor' else 'images.'
                        same(list(obj.getParamNames()), [pre + x for x in cont(obj).getParamNames()], 'owner names')
                except Exception as e:
                    fail('after %s: %s: %s', op, type(e).__name__, e)
                ck.step()
                ck.outcome(st)
                if st not in seen:
                    seen[st] = hist + (op,)
                    q.append(hist + (op,))
                    ck.state(st)
        ck.case([label, hist], expand)

    # constructing directly from a list of members must give the all-thawed state
    def direct():
        members = fresh()
        for n in range(maxlen + 1):
            lst = members[:n]
            obj = ctor(lst)
            check(cont(obj), members, orig, tuple((k, True) for k in range(n)))
            ck.step()
    ck.case([label, 'constructor'], direct)
    sec['bound'] = '%d container states (closed), length <= %d' % (len(seen), maxlen)
