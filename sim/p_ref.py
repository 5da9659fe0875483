# -*- coding: utf-8 -*-
"""T05: a Ref mirrors its target."""
import core
import gen
import history as hi
import model
import p_common as pc
from base import Prop, Ctx, register, ntasks
from history import Hist
from model import N, ModelError, dv


def target_path(rng, spec):
    """Keys to some element under *spec*, and the spec it has (or would
    have)."""
    keys = [spec['n']]
    while True:
        k = spec['k']
        if k in model.SCALARS or gen.chance(rng, 0.08):
            return keys, spec
        if k in model.SEQS:
            keys.append(unicode(gen.pick(rng, [0, 0, 0, 1, 1, 2, 7])))
            spec = N(spec).member_spec()
        else:
            kids = N(spec).child_specs()
            spec = gen.pick(rng, kids)
            keys.append(spec['n'])


def resolve(top, keys, W):
    e = top
    for k in keys:
        if isinstance(e, W.fl.Mapping):
            if not dict.__contains__(e, k):
                return None
            e = dict.__getitem__(e, k)
        elif isinstance(e, W.fl.Sequence):
            m = list(e)
            if not (k.isdigit() and int(k) < len(m)):
                return None
            e = m[int(k)]
        else:
            return None
    return e


class RefCtx(Ctx):
    pass


class Tree(object):
    """One task's tree."""

    def __init__(self, P, c):
        self.c = c
        self.root = c.Root()
        self.outer = None
        self.data = None
        self.sync()

    def top(self):
        return self.outer if self.outer is not None else self.root

    def sync(self):
        """A history on the data element that is in the tree now."""
        c = self.c
        if not dict.__contains__(self.root, u'data'):
            self.data = None
            return
        e = self.root[u'data']
        n = N(c.data, N({'k': 'Dict', 'n': c.plan['root']['n'], 'of': []}))
        if self.outer is not None:
            n.parent.parent = N({'k': 'Dict', 'n': None, 'of': []})
        hi.mirror(e, n)
        self.data = Hist(c, c.Data, c.data, c.classes, c.specs, n, e)

    def leaves(self):
        out = []
        todo = [self.top()]
        while todo:
            e = todo.pop()
            if isinstance(e, self.c.W.fl.Ref):
                continue
            if isinstance(e, self.c.W.fl.Mapping):
                todo.extend([dict.__getitem__(e, k) for k in dict.keys(e)])
            elif isinstance(e, self.c.W.fl.Sequence):
                todo.extend(list(e))
            else:
                out.append((e, e.value, e.u))
        return out


@register
class T05(Prop):
    ID = 'T05'
    CHUNK = 25
    QUICK = 64
    THOROUGH = 3000
    RULE = ('A tree with data and 1 to 5 Refs (absolute and relative paths, '
            'all writable modes, chains, Refs in a List), 6 to 16 changes '
            'per task: of the data, replacing it, moving the tree below '
            'another root, and writes through the Refs, some failing; 1 to '
            '3 tasks with trees of one schema; non-trivial: some Ref '
            'resolved and either a write went through or a target was '
            'replaced.')

    def nontrivial(self, plan, sim):
        p = sim.probes
        return bool(p.get('resolved') and (p.get('written') or
                                           p.get('replaced')))

    def gen(self, rng):
        n = ntasks(rng, 0.45, 3)
        data = gen.top_schema(rng, gen.pick(rng, [1, 1, 2]), width=3,
                              root=gen.pick(rng, ['Dict', 'SparseDict',
                                                  'List', 'Form']))
        data['n'] = u'data'
        for s in gen.walk(data):
            if s['k'] in model.SCALARS and gen.chance(rng, 0.3):
                s['hook'] = True
        norm = hi.normalise(data)
        refs = []
        for i in range(gen.some(rng, 1, 5)):
            keys, s = target_path(rng, norm)
            if refs and gen.chance(rng, 0.2):
                keys = [u'refs', u'r%d' % rng.randrange(len(refs))]
            sep = gen.pick(rng, [u'.', u'.', u'|'])
            refs.append({'n': u'r%d' % i, 'to': keys, 'sep': sep,
                         'abs': gen.chance(rng, 0.7),
                         'w': gen.pick(rng, [True, True, False, 'ignore',
                                             None])})
        root = {'k': gen.pick(rng, ['Dict', 'SparseDict', 'SparseDict']),
                'n': gen.pick(rng, [u'inner'])}
        specs = hi.specs_of(norm)
        tasks = []
        for i in range(n):
            ops = []
            for j in range(gen.some(rng, 6, 16)):
                r = rng.random()
                if r < 0.4:
                    op = hi.any_op(rng, specs)
                    op = {'o': 'data', 'op': op}
                elif r < 0.75:
                    k = rng.randrange(len(refs))
                    op = {'o': 'write', 'ref': k, 'list': rng.random() < 0.2,
                          'how': gen.pick(rng, ['set', 'set', 'item', 'flat',
                                                'value', 'u']),
                          'x': self.value(rng, norm, refs[k]['to'])}
                elif r < 0.85:
                    op = {'o': 'swap', 'x': gen.value_for(rng, data, 0.9)}
                elif r < 0.93:
                    op = {'o': 'rootset', 'x': gen.value_for(rng, data, 0.9)}
                elif r < 0.96:
                    op = {'o': 'drop'}
                else:
                    op = {'o': 'wrap', 'x': gen.value_for(rng, data, 0.9),
                          'other': gen.chance(rng, 0.7)}
                if gen.chance(rng, 0.2):
                    op['f'] = gen.cb_fault(rng, 4)
                ops.append(op)
            tasks.append(ops)
        return {'data': data, 'refs': refs, 'root': root, 'tasks': tasks,
                'start': [gen.value_for(rng, data, 0.9) for i in range(n)],
                'sched': gen.sched(rng, n)}

    def value(self, rng, spec, keys):
        for k in keys[1:]:
            if spec['k'] in model.SEQS:
                spec = N(spec).member_spec()
            else:
                f = [s for s in N(spec).child_specs() if s['n'] == k]
                if not f:
                    break
                spec = f[0]
        if spec['k'] in model.SCALARS:
            return gen.value_for(rng, spec, 0.7)
        return gen.pick(rng, [u'x', u'1', None, 5])

    def setup(self, plan, sim, W):
        c = RefCtx(plan, sim, W)
        fl = W.fl
        c.data = hi.normalise(plan['data'])
        c.specs = hi.specs_of(c.data)
        c.classes = {}
        c.Data = gen.build(c.data, W, c.classes, hi.hooked(lambda: sim))
        refs = []
        for r in plan['refs']:
            p = r['sep'].join(r['to'])
            if r['abs']:
                p = r['sep'] + p
            k = fl.Ref.named(r['n']).to(p, sep=r['sep'])
            if r['w'] is not None:
                k = k.using(writable=r['w'])
            refs.append(k)
        c.Refs = fl.Dict.named(u'refs').of(*refs)
        c.RefList = fl.List.named(u'rl').of(refs[0])
        kind = getattr(fl, plan['root']['k'])
        c.Root = kind.named(plan['root']['n']).of(c.Data, c.Refs, c.RefList)
        c.Outer = fl.SparseDict.of(c.Data, c.Root)
        c.trees = {}
        return c

    def tree(self, c, i):
        if i not in c.trees:
            t = c.trees[i] = Tree(self, c)
            self.put(c, t, c.plan['start'][i])
            self.refs(c, t)
        return c.trees[i]

    def refs(self, c, t):
        """Every Ref in the tree."""
        root, fl = t.root, c.W.fl
        if c.plan['root']['k'] == 'SparseDict':
            if not dict.__contains__(root, u'refs'):
                root[u'refs'] = c.Refs()
            if not dict.__contains__(root, u'rl'):
                root[u'rl'] = c.RefList()
        if not len(root[u'rl']):
            root[u'rl'].append(c.RefList.member_schema())
        return [root[u'refs'][r['n']] for r in c.plan['refs']] + \
            list(root[u'rl'])

    def put(self, c, t, x):
        """Replace the data."""
        n = N(c.data)
        try:
            n.set(dv(x))
        except ModelError:
            return
        if c.plan['root']['k'] == 'SparseDict':
            new = c.Data()
            new.set(dv(x))
            t.root[u'data'] = new
        else:
            t.root[u'data'].set(dv(x))
        t.sync()
        d = model.diff(t.root[u'data'], n)
        if d:
            c.sim.fail('state', 'putting %r: %s' % (x, d))

    def final(self, c, r):
        """The keys a Ref's chain ends at, or None for a loop."""
        seen = []
        while r['to'][0] == u'refs':
            if r['n'] in seen:
                return None
            seen.append(r['n'])
            r = [x for x in c.plan['refs'] if x['n'] == r['to'][1]][0]
        return r['to']

    def check(self, c, t, what):
        sim, W = c.sim, c.W
        els = self.refs(c, t)
        decl = c.plan['refs'] + [c.plan['refs'][0]] * (len(els) - len(
            c.plan['refs']))
        for e, r in zip(els, decl):
            top = e
            while top.parent is not None:
                top = top.parent
            if top is not t.top():
                sim.fail('root', 'after %s: %s is not under its root' % (
                    what, r['n']))
            want = resolve(top, r['to'], W)
            name = '%s -> %r' % (r['n'], r['to'])
            if want is None:
                for attr in ('value', 'u', 'target'):
                    try:
                        got = getattr(e, attr)
                    except KeyError:
                        continue
                    sim.fail('dangling', 'after %s: %s has no target, its '
                             '%s is %r' % (what, name, attr, got))
                sim.probe('dangling')
                continue
            if e.target is not want:
                sim.fail('target', 'after %s: the target of %s is %r, not '
                         '%r' % (what, name, e.target, want))
            try:
                v, u = want.value, want.u
            except KeyError:        # a chain that ends nowhere
                continue
            if not model.same_value(e.value, v) or e.u != u:
                sim.fail('mirror', 'after %s: %s has value %r, u %r, its '
                         'target %r, %r' % (what, name, e.value, e.u, v, u))
            sim.probe('resolved')

    def do(self, c, i, op):
        t = self.tree(c, i)
        o = op['o']
        what = getattr(self, 'do_' + o)(c, t, op)
        if what:
            if t.data is not None:
                t.data.check(what)
            self.check(c, t, what)

    def do_data(self, c, t, op):
        if t.data is None:
            return None
        if not t.data.apply(op['op'], op.get('f')):
            return None
        return 'data %r' % (op['op'],)

    def do_swap(self, c, t, op):
        self.put(c, t, op['x'])
        c.sim.probe('replaced')
        return 'replacing data by %r' % (op['x'],)

    def do_rootset(self, c, t, op):
        try:
            N(c.data).set(dv(op['x']))
        except ModelError:
            return None
        r = c.sim.op('rootset', op.get('f'),
                     lambda: t.root.set([(u'data', dv(op['x']))]))
        t.sync()
        if r[0] == 'exc':
            c.sim.fail('error', 'root.set: %r' % (r[1],))
        c.sim.probe('replaced')
        return 'root.set(data=%r)' % (op['x'],)

    def do_drop(self, c, t, op):
        if c.plan['root']['k'] != 'SparseDict' or t.data is None:
            return None
        del t.root[u'data']
        t.sync()
        return 'removing data'

    def do_wrap(self, c, t, op):
        if t.outer is not None:
            return None
        try:
            N(c.data).set(dv(op['x']))
        except ModelError:
            return None
        outer = c.Outer()
        if op.get('other', True):
            outer[u'data'] = dv(op['x'])
        outer[t.root.name] = t.root
        t.outer = outer
        t.sync()
        c.sim.probe('replaced')
        return 'moving the tree below another root'

    def do_write(self, c, t, op):
        sim, W = c.sim, c.W
        els = self.refs(c, t)
        r = c.plan['refs'][op['ref']]
        e = els[op['ref']]
        how = op['how']
        if op['list']:
            e, r, = els[-1], c.plan['refs'][0]
            if how in ('item', 'flat'):
                how = 'set'
        # the chain: who decides whether it is written
        modes, cur, x = [], r, e
        hops = 0
        while True:
            modes.append(cur['w'] if cur['w'] is not None else 'ignore')
            x = resolve(t.top(), cur['to'], W)
            if x is None or not isinstance(x, W.fl.Ref):
                break
            cur = [z for z in c.plan['refs'] if z['n'] == cur['to'][1]][0]
            hops += 1
            if hops > 9:
                return None
        val = dv(op['x'])
        if x is not None and isinstance(x, W.fl.Container):
            return None
        before = t.leaves()
        twin = None
        if x is not None:
            twin = type(x)()
            if how in ('value', 'u'):
                try:
                    if not twin.set(val):
                        return None
                except Exception:
                    return None
                val = getattr(twin, how)
            else:
                try:
                    ok = twin.set(val)
                except Exception, err:
                    ok = err
        elif how in ('value', 'u'):
            return None
        if how == 'set':
            fn = lambda: e.set(val)
        elif how == 'item':
            def fn():
                t.root[u'refs'][r['n']] = val
        elif how == 'flat':
            if not isinstance(val, unicode):
                return None
            fn = lambda: t.root[u'refs'].set_flat([
                (u'zz', u'1'), (u'refs_' + r['n'], val)])
        else:
            def fn():
                setattr(e, how, val)
        got = sim.op('write', op.get('f'), fn)
        what = '%s(%r) through %s %r (writable %r)' % (
            how, val, r['n'], r['to'], modes)
        after = t.leaves()
        if [id(a[0]) for a in before] != [id(a[0]) for a in after]:
            sim.fail('structure', '%s changed the tree' % what)
        changed = [(a, b) for a, b in zip(before, after)
                   if not (model.same_value(a[1], b[1]) and a[2] == b[2])]
        # the first link that does not pass it on decides
        stop = [m for m in modes if m is not True]
        if sim.fault_hit:
            if got[0] == 'ok':
                sim.fail('swallowed', '%s: the failure did not reach the '
                         'caller' % what)
            if changed:
                sim.fail('changed', '%s failed and changed %r' % (
                    what, changed))
        elif x is None:
            if got[0] == 'ok' and (not stop or stop[0] is False) and \
                    modes[0] is True:
                sim.fail('dangling', '%s did not fail' % what)
            if changed:
                sim.fail('changed', '%s changed %r' % (what, changed))
        elif stop:
            if changed:
                sim.fail('changed', '%s changed %r' % (what, changed))
            if stop[0] is False and not (got[0] == 'exc' and isinstance(
                    got[1], TypeError)) and not (
                        how not in ('value', 'u') and
                        isinstance(ok, Exception)):
                sim.fail('writable', '%s was not refused: %r' % (what, got))
            if stop[0] == 'ignore' and got[0] != 'ok' and not (
                    how not in ('value', 'u') and isinstance(ok, Exception)):
                sim.fail('ignore', '%s raised %r' % (what, got[1]))
        else:
            if how in ('value', 'u'):
                wv, wu = x.value, x.u
                old = [b for b in before if b[0] is x][0]
                if how == 'value':
                    good = model.same_value(wv, val) and wu == old[2]
                else:
                    good = wu == val and model.same_value(wv, old[1])
            elif isinstance(ok, Exception):
                good = not changed and got[0] == 'exc'
            else:
                good = got[0] == 'ok' and model.same_value(
                    x.value, twin.value) and x.u == twin.u
                if how == 'set' and bool(got[1]) != bool(ok):
                    good = False
            if not good:
                sim.fail('written', '%s gave %r and left the target at %r, '
                         '%r; setting it would leave %r, %r' % (
                             what, got, x.value, x.u, twin.value, twin.u))
            if [a for a, b in changed if a[0] is not x]:
                sim.fail('changed', '%s changed %r' % (what, changed))
            sim.probe('written')
        t.sync()
        return what
