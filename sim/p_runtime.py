# -*- coding: utf-8 -*-
"""S04 paths, S05 symbols, S06 lazy namespace, S07 properties."""
import copy
import pickle
import sys

import core
import gen
import model
import world
from base import Prop, Ctx, register, ntasks, exc_name
from core import SimFault


# -- S05 --------------------------------------------------------------------

@register
class S05(Prop):
    ID = 'S05'
    QUICK = 120
    RULE = ('Random scripts of symbol(), pickle and copy calls by 1-4 tasks '
            'over overlapping names; non-trivial: a preemption inside the '
            'library or a fired fault.')

    def gen(self, rng):
        nt = ntasks(rng, 0.15, 4)
        tag = '%06x' % rng.randrange(1 << 24)
        names = ['%s_%d' % (tag, i) for i in range(gen.some(rng, 1, 4))]
        names += gen.pick(rng, [[], ['Unset'], ['deleted', 'NotEmpty'],
                                [tag, tag.upper()], ['Unspecified', 'Root']])
        fault = gen.chance(rng, 0.5)
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 2, 7)):
                r = rng.random()
                n = gen.pick(rng, names)
                if r < 0.62:
                    op = {'o': 'sym', 'n': n}
                elif r < 0.72:
                    op = {'o': 'pickle', 'n': n, 'p': rng.randrange(3)}
                elif r < 0.8:
                    op = {'o': 'copy', 'n': n}
                elif r < 0.88:
                    op = {'o': 'deepcopy', 'n': n}
                elif r < 0.96:
                    op = {'o': 'stale', 'n': n}
                else:
                    op = {'o': 'many', 'k': gen.some(rng, 5, 120),
                          'n': tag}
                if fault and gen.chance(rng, 0.3):
                    op['f'] = gen.pt_fault(rng, 14)
                ops.append(op)
            tasks.append(ops)
        return {'tasks': tasks, 'sched': gen.sched(rng, nt)}

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.seen = W.__dict__.setdefault('symbols', {})
        for n, v in (('Unset', W.fl.Unset), ('Unspecified',
                                             W.fl.Unspecified)):
            c.seen.setdefault(n, v)
        c.got = []
        return c

    def do(self, c, i, op):
        symbol = c.W.util.symbol
        o = op['o']
        if o == 'many':
            for j in range(op['k']):
                self.one(c, i, 'sym', str('%s-%d' % (op['n'], j)), None, 0)
            return
        self.one(c, i, o, str(op['n']), op.get('f'), op.get('p', 0))

    def one(self, c, i, o, n, f, p):
        symbol = c.W.util.symbol
        if o == 'sym':
            r = c.sim.op('symbol', f, symbol, n)
        elif o == 'stale':
            # a name equal to but not identical with the first one
            r = c.sim.op('symbol', f, symbol, ''.join(list(n)))
        elif o == 'pickle':
            r = c.sim.op('pickle', f, lambda: pickle.loads(
                pickle.dumps(symbol(n), p)))
        elif o == 'copy':
            r = c.sim.op('copy', f, lambda: copy.copy(symbol(n)))
        else:
            r = c.sim.op('deepcopy', f,
                         lambda: copy.deepcopy([symbol(n)])[0])
        if r[0] == 'exc':
            c.sim.fail('error', '%s of %r raised %r' % (o, n, r[1]))
        if r[0] == 'ok':
            self.check(c, n, r[1], o)

    def check(self, c, n, v, what):
        old = c.seen.get(n)
        if old is None:
            c.seen[n] = v
            if repr(v) != n or v.name != n:
                c.sim.fail('name', 'symbol(%r) is %r' % (n, v))
        elif old is not v:
            c.sim.fail('two-objects', '%s of %r gave another object' % (
                what, n))

    def finish(self, c):
        for n in sorted(c.seen):
            v = c.W.util.symbol(n)
            if v is not c.seen[n]:
                c.sim.fail('two-objects', 'symbol(%r) changed' % n)
            if not (v == v) or v != c.seen[n]:
                c.sim.fail('equality', 'symbol(%r) is not itself' % n)
            if pickle.loads(pickle.dumps(v, 2)) is not v:
                c.sim.fail('two-objects', 'pickling %r made another' % n)
        ids = {}
        for n, v in c.seen.items():
            ids[id(v)] = n
        if len(ids) != len(c.seen):
            c.sim.fail('shared', 'two names share one symbol')


# -- S06 --------------------------------------------------------------------

PUBLIC = {
    'exc': ('AdaptationError',),
    'schema': ('Array', 'Boolean', 'Compound', 'Constrained', 'Container',
               'Date', 'DateTime', 'DateYYYYMMDD', 'Decimal', 'Dict',
               'Element', 'Enum', 'Float', 'Form', 'Integer', 'JoinedString',
               'List', 'Long', 'Mapping', 'MultiValue', 'Number',
               'Properties', 'Ref', 'Scalar', 'Sequence', 'Skip', 'SkipAll',
               'SkipAllFalse', 'SparseDict', 'String', 'Time', 'Unevaluated',
               'Unset'),
    'util': ('Unspecified', 'class_cloner'),
}
DEFINED = {
    'schema.base': ('Element', 'Skip', 'SkipAll', 'SkipAllFalse',
                    'Unevaluated', 'Unset'),
    'schema.scalars': ('String', 'Integer', 'Boolean', 'Date', 'Ref',
                       'Constrained', 'Enum', 'Scalar', 'Number', 'Long',
                       'Float', 'Decimal', 'Time', 'DateTime'),
    'schema.containers': ('List', 'Array', 'Dict', 'SparseDict',
                          'MultiValue', 'Container', 'Mapping', 'Sequence'),
    'schema.compound': ('DateYYYYMMDD', 'JoinedString', 'Compound'),
    'schema.forms': ('Form',),
    'schema.properties': ('Properties',),
    'exc': ('AdaptationError',),
}
UTIL = ('Maybe', 'Unspecified', 'adict', 'symbol', 'to_pairs',
        'keyslice_pairs', 'lazy_property', 'luhn10', 'class_cloner')
SUBS = ('schema', 'validation', 'util', 'signals', 'exc', 'schema.base',
        'schema.scalars', 'schema.containers', 'schema.forms', 'util.base',
        'validation.base', 'out.markup', 'out.generic', 'validation.scalars',
        'schema.properties', 'schema.paths', 'ext.creditcard')
BAD = ('Nope', '_private', 'string', 'Schema', 'schemas', '')


@register
class S06(Prop):
    ID = 'S06'
    CHUNK = 12
    QUICK = 48
    THOROUGH = 1500
    RULE = ('Each run starts with the package not imported; 1-3 tasks touch '
            'public names, import submodules and unknown names while module '
            'loads fail at chosen positions; non-trivial: a preemption '
            'inside the library or a fired fault.')
    STUB = ('the import lock is the simulator\'s; module files are read and '
            'compiled by the simulator\'s importer')

    def gen(self, rng):
        nt = ntasks(rng, 0.25, 3)
        fault = gen.chance(rng, 0.5)
        names = [n for v in PUBLIC.values() for n in v]
        names.sort()
        few = [gen.pick(rng, names) for _ in range(gen.some(rng, 1, 6))]
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 1, 6)):
                r = rng.random()
                if r < 0.35:
                    op = {'o': 'get', 'n': gen.pick(rng, few)}
                elif r < 0.5:
                    op = {'o': 'get', 'n': gen.pick(rng, names)}
                elif r < 0.6:
                    op = {'o': 'get', 'n': gen.pick(
                        rng, ['schema', 'validation', 'util', 'signals',
                              'exc', '__version__'])}
                elif r < 0.75:
                    op = {'o': 'import', 'n': gen.pick(rng, SUBS)}
                elif r < 0.85:
                    op = {'o': 'from', 'n': gen.pick(rng, few)}
                elif r < 0.9:
                    op = {'o': 'util', 'n': gen.pick(rng, UTIL)}
                elif r < 0.96:
                    op = {'o': 'bad', 'n': gen.pick(rng, BAD)}
                else:
                    op = {'o': 'use'}
                if fault and gen.chance(rng, 0.35):
                    if gen.chance(rng, 0.65):
                        op['f'] = ['cb', gen.some(rng, 1, 14), gen.pick(
                            rng, ['fault', 'memory', 'kill']), 'load']
                    else:
                        op['f'] = gen.pt_fault(rng, 200)
                ops.append(op)
            tasks.append(ops)
        return {'tasks': tasks, 'sched': gen.sched(rng, nt), 'cap': 100000}

    def run(self, plan, sim, W):
        world.purge()
        world._importer.on_load = lambda name: sim.cb('load')
        try:
            c = Ctx(plan, sim, None)
            c.objs = {}
            c.mods = {}
            for i, ops in enumerate(plan['tasks']):
                sim.spawn(self._body(c, i, ops))
            sim.run()
            self.finish(c)
        finally:
            world._importer.on_load = None
            world.purge()
            W.activate()

    def see(self, c, key, v):
        old = c.objs.setdefault(key, v)
        if old is not v:
            c.sim.fail('two-objects', 'two objects for %s' % key)

    def fl(self):
        return __import__('flatland')

    def do(self, c, i, op):
        o, n, f = op['o'], op.get('n'), op.get('f')
        n = n and str(n)
        if o == 'get':
            r = c.sim.op('get ' + n, f, lambda: getattr(self.fl(), n))
        elif o == 'from':
            def fn():
                ns = {}
                exec 'from flatland import %s as x' % n in ns
                return ns['x']
            r = c.sim.op('from ' + n, f, fn)
        elif o == 'import':
            r = c.sim.op('import ' + n, f, lambda: self.imp(n))
        elif o == 'util':
            r = c.sim.op('util ' + n, f, lambda: getattr(
                __import__('flatland.util').util, n))
        elif o == 'bad':
            def bad():
                m = self.fl()
                try:
                    getattr(m, n)
                except AttributeError:
                    return None
                return 'found'
            r = c.sim.op('bad ' + n, f, bad)
            if r[0] == 'ok' and r[1] is not None:
                c.sim.fail('unknown', 'flatland.%s exists' % n)
        else:
            r = c.sim.op('use', f, self.use)
        if r[0] == 'exc':
            import traceback
            c.sim.fail('error', '%s %s raised %s: %s' % (
                o, n, type(r[1]).__name__, r[1]))
        if r[0] == 'ok':
            if o in ('get', 'from'):
                self.see(c, 'flatland.' + n, r[1])
            elif o == 'import':
                self.see(c, 'module flatland.' + n, r[1])
            elif o == 'util':
                self.see(c, 'flatland.util.' + n, r[1])

    def imp(self, n):
        __import__('flatland.' + n)
        return sys.modules['flatland.' + n]

    def use(self):
        """The classes work with each other."""
        fl = self.fl()
        F = fl.Form
        s = type(F)('X', (F,), {'a': fl.Integer, 'b': fl.List.of(fl.String)})
        e = s()
        e.set({'a': u'1', 'b': [u'x']})
        if not e.validate() or e['a'].value != 1:
            raise ValueError('the package does not work')
        if e.flatten() is None or s().raw is not fl.Unset:
            raise ValueError('Unset is not the Unset')
        from flatland.validation import Present
        if fl.String.validated_by(Present())(u'').validate():
            raise ValueError('Present accepts nothing')
        return True

    def finish(self, c):
        for n in SUBS:
            self.see(c, 'module flatland.' + n, self.imp(n))
        fl = self.fl()
        for sub in sorted(PUBLIC):
            m = sys.modules['flatland.' + sub]
            if getattr(fl, sub) is not m:
                c.sim.fail('two-modules', 'flatland.%s is not the loaded '
                           'module' % sub)
            for n in PUBLIC[sub]:
                v = getattr(fl, n)
                self.see(c, 'flatland.' + n, v)
                if v is not getattr(m, n):
                    c.sim.fail('two-objects', 'flatland.%s is not '
                               'flatland.%s.%s' % (n, sub, n))
        for sub in sorted(DEFINED):
            m = sys.modules['flatland.' + sub]
            for n in DEFINED[sub]:
                if getattr(fl, n) is not getattr(m, n):
                    c.sim.fail('two-objects', 'flatland.%s is not the one of '
                               '%s' % (n, sub))
        u = sys.modules['flatland.util']
        ub = sys.modules['flatland.util.base']
        for n in UTIL:
            v = getattr(u, n)
            self.see(c, 'flatland.util.' + n, v)
            if v is not getattr(ub, n):
                c.sim.fail('two-objects', 'flatland.util.%s' % n)
        for n in BAD:
            if hasattr(fl, n):
                c.sim.fail('unknown', 'flatland.%s exists' % n)
        for n in PUBLIC['schema'] + PUBLIC['util'] + ('schema', 'exc'):
            if n not in fl.__all__ or n not in dir(fl):
                c.sim.fail('listing', '%s is not in __all__ or dir()' % n)
        try:
            self.use()
        except Exception, e:
            c.sim.fail('use', 'the loaded package fails: %r' % e)


# -- S07 --------------------------------------------------------------------

def bag(xs):
    out = {}
    for x in xs:
        out[x] = out.get(x, 0) + 1
    return out


DEL = ['deleted']
GONE = ['gone']
KEYS = [u'a', u'b', u'c', 'a', u'd', ('t', 1), None, u'x y']


class Owner(object):
    """Model of a class or element with properties."""

    def __init__(self, real, base=None, root=False, inst=False, task=None):
        self.real = real
        self.base = base          # Owner this inherits from
        self.root = root          # has Properties of its own
        self.inst = inst
        self.task = task
        self.own = {}
        self.whole = None         # wholesale assignment on an instance

    def frames(self):
        o = self
        while o is not None:
            yield o.own
            if o.root:
                return
            o = o.base

    def read(self):
        if self.whole is not None:
            return dict(self.whole)
        out, gone = {}, set()
        for f in self.frames():
            for k, v in f.items():
                if k not in out and k not in gone:
                    if v is DEL:
                        gone.add(k)
                    else:
                        out[k] = v
        return out


@register
class S07(Prop):
    ID = 'S07'
    QUICK = 140
    RULE = ('Random histories of property reads, mutations and derivations '
            'over a class hierarchy and its elements, checked against nested '
            'overlays; tasks own disjoint parts of one hierarchy; '
            'non-trivial: a preemption inside the library or a fired fault, '
            'or (one task) at least four mutations.')

    def nontrivial(self, plan, sim):
        return sim.preempts > 0 or bool(sim.fired) or \
            sim.probes.get('mutation', 0) >= 4

    def pairs(self, rng, n):
        return [[rng.randrange(len(KEYS)), n * 100 + i]
                for i in range(gen.some(rng, 0, 4))]

    def gen(self, rng):
        nt = ntasks(rng, 0.45, 3)
        fault = gen.chance(rng, 0.4)
        share = gen.pick(rng, [0, 0.15, 0.9]) if nt > 1 else 0
        uid = [0]
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 4, 14 if nt == 1 else 8)):
                uid[0] += 1
                u = uid[0]
                if gen.chance(rng, share):
                    ops.append({'o': 'common', 'u': u,
                                'a': gen.pick(rng, ['set', 'set', 'set',
                                                    'del', 'pop', 'update',
                                                    'setdefault', 'read']),
                                'k': rng.randrange(3),
                                't': gen.pick(rng, [0, 0, 1, 2])})
                    continue
                r = rng.random()
                who = rng.randrange(1000)
                k = rng.randrange(len(KEYS))
                if r < 0.17:
                    op = {'o': 'set', 'k': k}
                elif r < 0.27:
                    op = {'o': 'del', 'k': k}
                elif r < 0.35:
                    op = {'o': 'update', 'p': self.pairs(rng, u),
                          'form': gen.pick(rng, ['d', 'p', 'i', 'kw', 'dk'])}
                elif r < 0.44:
                    op = {'o': 'setdefault', 'k': k}
                elif r < 0.55:
                    op = {'o': 'pop', 'k': k,
                          'd': gen.chance(rng, 0.5)}
                elif r < 0.59:
                    op = {'o': 'clear'}
                elif r < 0.75:
                    op = {'o': 'derive', 'how': gen.pick(
                        rng, ['named', 'with', 'withp', 'sub', 'subroot',
                              'using', 'usingprops', 'usingP']),
                          'p': self.pairs(rng, u)}
                elif r < 0.86:
                    op = {'o': 'new', 'how': gen.pick(
                        rng, ['plain', 'plain', 'plain', 'kw'])}
                elif r < 0.89:
                    op = {'o': 'whole', 'p': self.pairs(rng, u)}
                else:
                    op = {'o': 'read'}
                op['w'] = who
                op['u'] = u
                if fault and gen.chance(rng, 0.25):
                    op['f'] = gen.pt_fault(rng, 25) if gen.chance(rng, 0.7) \
                        else gen.cb_fault(rng, 3)
                ops.append(op)
            tasks.append(ops)
        return {'tasks': tasks, 'sched': gen.sched(rng, nt),
                'kind': gen.pick(rng, ['String', 'Dict', 'List', 'Integer']),
                'pre': [self.pairs(rng, 900 + i) for i in range(3)],
                'initial': gen.chance(rng, 0.6)}

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        fl = W.fl
        cls = getattr(fl, plan['kind'])
        if plan['kind'] in ('Dict', 'List'):
            cls = cls.of(fl.String.named(u'm'))
        p0 = dict([(KEYS[k], v) for k, v in plan['pre'][0]])
        if plan['initial']:
            cls = type('Base', (cls,), {'properties': fl.Properties(p0)})
        else:
            cls = cls.with_properties(p0)
        root = Owner(cls, root=plan['initial'])
        root.own.update(p0)
        c.owners = [root]
        sub = cls.named(u'shared')
        p1 = dict([(KEYS[k], v) for k, v in plan['pre'][1]])
        o = Owner(sub, root)
        c.owners.append(o)
        sub.properties.update(p1)
        o.own.update(p1)
        inst = sub()
        o2 = Owner(inst, o, inst=True)
        p2 = dict([(KEYS[k], v) for k, v in plan['pre'][2]])
        inst.properties.update(p2)
        o2.own.update(p2)
        c.owners.append(o2)
        a = cls.named(u'common')
        b = a.named(u'sub')
        c.common = [a, b, b()]
        c.entries = [{}, {}, {}]
        return c

    def common(self, c, i, op):
        """Tasks write different keys of one class, subclass or element."""
        k = ('common', i, op['k'])
        t, a = op['t'], op['a']
        x = c.common[t]
        own = c.entries[t]
        now = self.lookup(c, t, k)
        val = 'c%d' % op['u']
        want = ('ok', None)
        new = own.get(k)
        if a == 'set':
            def fn():
                x.properties[k] = val
            new = val
        elif a == 'update':
            fn = lambda: x.properties.update({k: val})
            new = val
        elif a == 'setdefault':
            fn = lambda: x.properties.setdefault(k, val)
            want = ('ok', val if now is DEL else now)
            if now is DEL:
                new = val
        elif a == 'pop':
            fn = lambda: x.properties.pop(k, 'dflt')
            want = ('ok', 'dflt' if now is DEL else now)
            if now is not DEL:
                new = DEL
        elif a == 'del':
            def fn():
                del x.properties[k]
            if now is DEL:
                want = ('exc', 'KeyError')
            else:
                new = DEL
        else:
            fn = lambda: x.properties.get(k, 'none')
            want = ('ok', 'none' if now is DEL else now)
        r = c.sim.op('common-' + a, None, fn)
        got = ('exc', type(r[1]).__name__) if r[0] == 'exc' else r
        if got != want:
            c.sim.fail('result', '%s(%r) on the common %s gave %r, expected '
                       '%r' % (a, k, ('class', 'subclass', 'element')[t],
                               got, want))
        if new is not None:
            own[k] = new
        c.sim.probe('common')
        for j in range(3):
            self.entry(c, j, k)

    def lookup(self, c, t, k):
        while t >= 0:
            if k in c.entries[t]:
                return c.entries[t][k]
            t -= 1
        return DEL

    def entry(self, c, j, k):
        want = self.lookup(c, j, k)
        x = c.common[j]
        r = c.sim.op('read', None, lambda: (
            self.item(x.properties, k), k in x.properties,
            [v for q, v in x.properties.items() if q == k]))
        exp = (KeyError, False, []) if want is DEL else (want, True, [want])
        if r[0] != 'ok' or r[1] != exp:
            c.sim.fail('lost', '%r of the common %s reads %r, expected %r' % (
                k, ('class', 'subclass', 'element')[j], r[1], exp))

    def mine(self, c, i, inst=None):
        return [o for o in c.owners
                if (len(c.plan['tasks']) == 1 or o.task == i)
                and (inst is None or o.inst == inst)]

    def do(self, c, i, op):
        o = op['o']
        if o == 'common':
            return self.common(c, i, op)
        if o in ('derive', 'new'):
            pool = [x for x in c.owners if not x.inst and
                    (x.task is None or x.task == i)]
        elif o == 'read':
            pool = [x for x in c.owners if x.task is None or x.task == i]
        elif o == 'whole':
            pool = self.mine(c, i, True)
        else:
            pool = self.mine(c, i)
        if not pool:
            return
        w = pool[op['w'] % len(pool)]
        f = op.get('f')
        sim = c.sim
        if o == 'derive':
            return self.derive(c, i, op, w)
        if o == 'new':
            if op['how'] == 'kw':
                p = {u'kw': op['u']}
                r = sim.op('new', f, lambda: w.real(properties=dict(p)))
                if r[0] == 'ok':
                    x = Owner(r[1], w, inst=True, task=i)
                    x.whole = p
                    c.owners.append(x)
            else:
                r = sim.op('new', f, lambda: w.real())
                if r[0] == 'ok':
                    c.owners.append(Owner(r[1], w, inst=True, task=i))
            if r[0] == 'exc' and not sim.fault_hit:
                # (a fault inside hasattr() surfaces as a TypeError)
                sim.fail('error', 'constructor raised %r' % (r[1],))
            return
        if o == 'whole':
            p = dict([(KEYS[k], v) for k, v in op['p']])
            q = dict(p)
            def assign():
                w.real.properties = q
            r = sim.op('assign', f, assign)
            if r[0] == 'ok':
                w.whole = p
                w.own = {}
            elif w.real.properties is q:
                w.whole = p
            return
        if o == 'read':
            return self.check(c, w)
        before = w.read()
        target = w.whole if w.whole is not None else w.own
        val = 'v%d' % op['u']
        k = KEYS[op.get('k', 0)]
        want = ('ok', None)
        after = dict(before)
        real = w.real
        new = {}
        if o == 'set':
            def fn():
                real.properties[k] = val
            new[k] = val
        elif o == 'del':
            def fn():
                del real.properties[k]
            if k in before:
                new[k] = DEL
            else:
                want = ('exc', 'KeyError')
        elif o == 'pop':
            if op['d']:
                fn = lambda: real.properties.pop(k, 'dflt')
            else:
                fn = lambda: real.properties.pop(k)
            if k in before:
                want = ('ok', before[k])
                new[k] = DEL
            elif op['d']:
                want = ('ok', 'dflt')
            else:
                want = ('exc', 'KeyError')
        elif o == 'setdefault':
            fn = lambda: real.properties.setdefault(k, val)
            if k in before:
                want = ('ok', before[k])
            else:
                want = ('ok', val)
                new[k] = val
        elif o == 'clear':
            fn = lambda: real.properties.clear()
            for x in before:
                new[x] = DEL
            if w.inst and w.whole is None:
                # an element forgets what only it had
                for x in list(w.own) + list(before):
                    new[x] = DEL if x in w.base.read() else GONE
        elif o == 'update':
            ps = [(KEYS[a], 'v%d' % b) for a, b in op['p']]
            form = op['form']
            kw = {}
            if form in ('kw', 'dk'):
                kw = {'kw1': 'k%d' % op['u'], 'kw2': 'l%d' % op['u']}
            if form == 'd':
                fn = lambda: real.properties.update(dict(ps))
            elif form == 'p':
                fn = lambda: real.properties.update(list(ps))
            elif form == 'kw':
                ps = []
                fn = lambda: real.properties.update(**kw)
            elif form == 'dk':
                fn = lambda: real.properties.update(dict(ps), **kw)
            else:
                def it():
                    for x in ps:
                        sim.cb('iter')
                        yield x
                fn = lambda: real.properties.update(it())
            new.update(ps)
            new.update(kw)
        r = sim.op(o, f, fn)
        got = ('exc', type(r[1]).__name__) if r[0] == 'exc' else r
        if r[0] == 'fault':
            self.settle(c, w, before, new, o)
            return
        if got != want:
            sim.fail('result', '%s(%r) on %s gave %r, expected %r' % (
                o, k, 'element' if w.inst else 'class', got, want))
        sim.probe('mutation')
        self.commit(w, new)
        self.check(c, w)

    def commit(self, w, new):
        for k, v in new.items():
            if w.whole is not None:
                if v is DEL:
                    w.whole.pop(k, None)
                else:
                    w.whole[k] = v
            elif v is GONE:
                w.own.pop(k, None)
            else:
                w.own[k] = v

    def settle(self, c, w, before, new, o):
        """After an interrupted mutation each key is as before or as meant."""
        now = dict(w.real.properties.items()) if w.whole is None \
            else dict(w.real.properties)
        took = {}
        for k in set(before) | set(now) | set(new):
            b = before.get(k, DEL)
            n = now.get(k, DEL)
            m = new.get(k, b)
            if o == 'clear' and w.inst and w.whole is None and k in new:
                # own entries go first, then the inherited ones are hidden
                if n is DEL:
                    took[k] = m
                elif n == w.base.read().get(k, DEL):
                    took[k] = GONE
                elif n != b:
                    c.sim.fail('torn', 'interrupted clear left %r=%r' % (
                        k, n))
                continue
            if n is not b and n != b:
                if n is not m and n != m:
                    c.sim.fail('torn', 'interrupted %s left %r=%r' % (
                        o, k, n))
                took[k] = m
        self.commit(w, took)

    def derive(self, c, i, op, w):
        how = op['how']
        p = dict([(KEYS[k], v) for k, v in op['p']])
        real = w.real
        fl = c.W.fl
        root = False
        own = {}
        if how == 'named':
            fn = lambda: real.named(u'n%d' % op['u'])
        elif how == 'with':
            fn = lambda: real.with_properties(p)
            own = dict(p)
        elif how == 'withp':
            fn = lambda: real.with_properties(p.items(), zz=op['u'])
            own = dict(p, zz=op['u'])
        elif how == 'using':
            fn = lambda: real.using(optional=True)
        elif how == 'usingprops':
            fn = lambda: real.using(properties=p)
            root, own = True, dict(p)
        elif how == 'usingP':
            fn = lambda: real.using(properties=fl.Properties(p))
            root, own = True, dict(p)
        elif how == 'sub':
            fn = lambda: type('Sub', (real,), {})
        else:
            fn = lambda: type('Sub', (real,),
                              {'properties': fl.Properties(p, zz=op['u'])})
            root, own = True, dict(p, zz=op['u'])
        q = dict(p)
        r = c.sim.op(how, op.get('f'), fn)
        if r[0] == 'exc' and not c.sim.fault_hit:
            c.sim.fail('error', '%s raised %r' % (how, r[1]))
        if p != q:
            c.sim.fail('argument', '%s changed its argument' % how)
        # what the caller does with its mapping later is its own affair
        p[u'later'] = 1
        p.pop(u'a', None)
        if r[0] == 'ok':
            o = Owner(r[1], w, root=root, task=i)
            o.own = own
            c.owners.append(o)
            c.sim.probe('mutation')

    def check(self, c, w):
        """All reading methods agree with the model."""
        want = w.read()
        ps = w.real.properties
        who = 'element' if w.inst else 'class'
        fail = c.sim.fail
        r = c.sim.op('read', None, lambda: dict(ps.items()))
        if r[0] != 'ok' or r[1] != want:
            fail('read', 'items() of %s: %r, expected %r' % (who, r[1], want))
        for name, fn, exp in (
                ('iteritems', lambda: bag(ps.iteritems()),
                 bag(want.items())),
                ('keys', lambda: bag(ps.keys()), bag(want)),
                ('iterkeys', lambda: bag(ps.iterkeys()), bag(want)),
                ('values', lambda: bag(ps.values()), bag(want.values())),
                ('itervalues', lambda: bag(ps.itervalues()),
                 bag(want.values())),
                ('copy', lambda: dict(ps.copy()), want),
                ('bool', lambda: bool(ps), bool(want)),
                ('eq', lambda: ps == want, True),
                ('ne', lambda: ps != want, False),
                ('ne2', lambda: ps != dict(want, q=1), True)):
            r = c.sim.op(name, None, fn)
            if r[0] != 'ok' or r[1] != exp:
                fail('read', '%s of %s: %r, expected %r' % (
                    name, who, r[1], exp))
        for k in KEYS + [u'kw1', u'kw', u'zz', u'later']:
            r = c.sim.op('get', None, lambda: (
                ps.get(k, 'none'), k in ps, self.item(ps, k)))
            v = want.get(k, 'none')
            if r[0] != 'ok' or r[1] != (v, k in want,
                                        v if k in want else KeyError):
                fail('read', 'get/in/[] of %r on %s: %r, expected %r' % (
                    k, who, r[1], v))

    def item(self, ps, k):
        try:
            return ps[k]
        except KeyError:
            return KeyError

    def finish(self, c):
        for o in c.owners:
            self.check(c, o)
        for j in range(3):
            for k in sorted(set([k for e in c.entries for k in e])):
                self.entry(c, j, k)


# -- S04 --------------------------------------------------------------------

PNAMES = [u'a', u'b', u'0', u'1', u'x y', u'a/b', u'x[0]', u'.', u'..',
          u'p]q', u'\xe9', u'a.b', u'n', u'[z]']


def escape(name):
    if name in (u'.', u'..'):
        return u'\\.' * len(name)
    return name.replace(u'/', u'\\/').replace(u'[', u'\\[')


@register
class S04(Prop):
    ID = 'S04'
    QUICK = 120
    CHUNK = 15
    RULE = ('Random trees and path expressions generated as syntax trees, '
            'printed, looked up by 1-3 tasks on their own trees between '
            'mutations and floods of other expressions, and compared by '
            'identity with an independent evaluation; non-trivial: a '
            'preemption inside the library, a fired fault, or a lookup that '
            'found at least one element through two or more steps.')

    def nontrivial(self, plan, sim):
        return sim.preempts > 0 or bool(sim.fired) or \
            sim.probes.get('deep-hit', 0) > 0

    def spec(self, rng, depth, name):
        r = rng.random()
        if depth <= 0 or r < 0.2:
            return {'k': gen.pick(rng, ['String', 'Integer']), 'n': name}
        if r < 0.55:
            ns = list(PNAMES)
            rng.shuffle(ns)
            return {'k': gen.pick(rng, ['Dict', 'Dict', 'SparseDict']),
                    'n': name,
                    'of': [self.spec(rng, depth - 1, n)
                           for n in ns[:gen.some(rng, 1, 4)]]}
        if r < 0.85:
            return {'k': 'List', 'n': name,
                    'of': [self.spec(rng, depth - 1,
                                     gen.pick(rng, [None, u'i', u'a']))]}
        if r < 0.95:
            return {'k': gen.pick(rng, ['Array', 'MultiValue']), 'n': name,
                    'of': [{'k': 'String', 'n': None}]}
        return {'k': 'YMD', 'n': name}

    def slice(self, rng):
        if gen.chance(rng, 0.3):
            return [None, None, None]
        b = gen.pick(rng, [None, None, 0, 1, 2, -1, -2, -3])
        e = gen.pick(rng, [None, None, 0, 1, 2, 3, -1, -2])
        s = gen.pick(rng, [None, None, None, 1, 2, -1, -2])
        return [b, e, s]

    def path(self, rng, spec):
        """A list of steps, usually leading somewhere."""
        steps = []
        cur = spec
        for _ in range(gen.some(rng, 0, 5)):
            r = rng.random()
            if r < 0.06:
                steps.append(['here'])
                continue
            if r < 0.12 and steps:
                steps.append(['up'])
                continue
            k = cur and cur['k']
            if k in ('Dict', 'SparseDict'):
                if r < 0.22:
                    steps.append(['slice', self.slice(rng)])
                    cur = gen.pick(rng, cur['of'])
                elif r < 0.3:
                    steps.append(['name', gen.pick(rng, PNAMES)])
                    cur = None
                else:
                    cur = gen.pick(rng, cur['of'])
                    steps.append(['name', cur['n']])
            elif k in ('List', 'Array', 'MultiValue'):
                if r < 0.55:
                    steps.append(['slice', self.slice(rng)])
                elif r < 0.62:
                    steps.append(['neg', gen.some(rng, 1, 3)])
                else:
                    steps.append(['idx', gen.some(rng, 0, 3),
                                  gen.chance(rng, 0.6)])
                cur = cur['of'][0]
            elif k == 'YMD':
                steps.append(['name', gen.pick(rng, [u'year', u'month',
                                                     u'day', u'week'])])
                cur = None
            else:
                if r < 0.5:
                    steps.append(gen.pick(rng, [
                        ['name', gen.pick(rng, PNAMES)],
                        ['slice', self.slice(rng)]]))
                break
        return steps

    def gen(self, rng):
        nt = ntasks(rng, 0.4, 3)
        fault = gen.chance(rng, 0.35)
        spec = {'k': 'Dict', 'n': None, 'of': []}
        ns = list(PNAMES)
        rng.shuffle(ns)
        spec['of'] = [self.spec(rng, 3, n) for n in ns[:gen.some(rng, 1, 4)]]
        if gen.chance(rng, 0.15):
            spec = {'k': 'List', 'n': None, 'of': [self.spec(rng, 3, u'i')]}
        paths = [{'abs': gen.chance(rng, 0.4), 'ups': gen.pick(
            rng, [0, 0, 0, 1, 2, 5]), 's': self.path(rng, spec)}
            for _ in range(gen.some(rng, 2, 6))]
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 3, 9)):
                r = rng.random()
                if r < 0.8:
                    op = {'o': 'find', 'p': gen.pick(rng, paths)
                          if gen.chance(rng, 0.6) else
                          {'abs': gen.chance(rng, 0.3), 'ups': 0,
                           's': self.path(rng, spec)},
                          'at': rng.randrange(1000),
                          'atroot': gen.chance(rng, 0.6),
                          'strict': gen.chance(rng, 0.5),
                          'single': gen.chance(rng, 0.25),
                          'raw': gen.chance(rng, 0.3),
                          'slash': gen.chance(rng, 0.1)}
                elif r < 0.92:
                    op = {'o': 'mutate', 'at': rng.randrange(1000),
                          'x': gen.value_for(rng, spec, 0.9)}
                elif r < 0.97:
                    op = {'o': 'flood', 'k': gen.pick(
                        rng, [20, 60, 60, 300]), 'b': rng.randrange(5000)}
                else:
                    op = {'o': 'bad', 's': gen.pick(
                        rng, [u'a[', u'[x]', u'a[b]c', u'', u'a//b', u'/',
                              u'a[]', u'///', u'.a', u'...'])}
                if fault and gen.chance(rng, 0.3) and o_ok(op):
                    op['f'] = gen.pt_fault(rng, 120)
                ops.append(op)
            tasks.append(ops)
        if gen.chance(rng, 0.06):
            tasks[0].insert(rng.randrange(len(tasks[0])),
                            {'o': 'flood', 'k': 1100, 'b': 10000})
        # how many more expressions the package may keep
        room = keep = None
        if gen.chance(rng, 0.3):
            if gen.chance(rng, 0.4):
                room = gen.some(rng, 0, 8)
            else:
                keep = gen.some(rng, 1, 3)
        return {'tasks': tasks, 'sched': gen.sched(rng, nt), 'spec': spec,
                'room': room, 'keep': keep,
                'x': [gen.value_for(rng, spec, 0.95) for _ in range(nt)]}

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        cls = gen.build(plan['spec'], W)
        c.cls = cls
        paths = sys.modules['flatland.schema.paths']
        if hasattr(paths, 'max_cache_size'):
            if not hasattr(W, 'paths_cap'):
                W.paths_cap = paths.max_cache_size
            paths.max_cache_size = W.paths_cap
            if plan['keep'] is not None:
                paths.max_cache_size = plan['keep']
            elif plan['room'] is not None:
                paths.max_cache_size = plan['room'] + len(
                    getattr(paths, 'expression_cache', ()))
        c.roots = []
        for x in plan['x']:
            e = cls()
            try:
                e.set(model.dv(x))
            except (TypeError, ValueError, KeyError):
                pass
            c.roots.append(e)
        return c

    # printing and evaluating paths
    def text(self, p, ups):
        """The expression, as a str or unicode, and what it means: (absolute,
        ups, steps) after collapsing name/.. pairs."""
        parts = []
        for _ in range(ups):
            parts.append(u'..')
        meaning = []
        up = ups
        for s in p['s']:
            if s[0] == 'here':
                parts.append(u'.')
            elif s[0] == 'up':
                parts.append(u'..')
                if meaning:
                    meaning.pop()
                else:
                    up += 1
            elif s[0] == 'name':
                parts.append(escape(s[1]))
                meaning.append(('name', s[1]))
            elif s[0] == 'idx':
                if s[2]:
                    parts.append(u'[%d]' % s[1])
                else:
                    parts.append(u'%d' % s[1])
                meaning.append(('name', u'%d' % s[1]))
            elif s[0] == 'neg':
                parts.append(u'[-%d]' % s[1])
                k = -s[1]
                meaning.append(('slice', [k, None if k == -1 else k + 1,
                                          None]))
            else:
                b, e, st = s[1]
                t = u'[%s:%s' % ('' if b is None else b,
                                 '' if e is None else e)
                if st is not None:
                    t += u':%s' % st
                parts.append(t + u']')
                meaning.append(('slice', s[1]))
        out = u''
        for i, t in enumerate(parts):
            # brackets may follow a name or another bracket directly
            glue = i > 0 and t.startswith(u'[') and (
                parts[i - 1] not in (u'.', u'..')) and (
                    p['s'] and (i % 2 == 0))
            if i and not glue:
                out += u'/'
            out += t
        if p['abs']:
            out = u'/' + out
        return out, up, meaning

    def evaluate(self, el, root, absolute, ups, steps, c):
        W = c.W.fl
        if absolute:
            el = root
        else:
            for _ in range(ups):
                if el.parent is not None:
                    el = el.parent
        cur = [el]
        missing = False
        for kind, x in steps:
            nxt = []
            for e in cur:
                if kind == 'name':
                    try:
                        if isinstance(e, W.Mapping):
                            if x not in e.keys():
                                raise KeyError(x)
                            nxt.append(e[x])
                        elif isinstance(e, W.Sequence):
                            nxt.append(list(e)[int(x)])
                        else:
                            raise KeyError(x)
                    except (KeyError, IndexError, ValueError):
                        missing = True
                else:
                    nxt.extend(list(e.children)[slice(*x)])
            cur = nxt
        return cur, missing

    def do(self, c, i, op):
        root = c.roots[i]
        sim = c.sim
        o, f = op['o'], op.get('f')
        if o == 'mutate':
            try:
                x = model.dv(op['x'])
            except ValueError:
                return
            new = c.cls()
            r = sim.op('set', None, root.set, x)
            return
        if o == 'flood':
            for j in range(op['k']):
                n = op['b'] + j
                r = sim.op('flood', None, lambda: root.find(
                    u'zz%d' % n, strict=False))
                if r != ('ok', []):
                    sim.fail('flood', 'unknown name found %r' % (r,))
            sim.probe('expressions', op['k'])
            return
        if o == 'bad':
            # no meaning is claimed for these, only that they disturb nothing
            sim.op('odd', f, lambda: root.find(op['s'], strict=False))
            return
        els = [root] + list(root.all_children)
        at = root if op['atroot'] else els[op['at'] % len(els)]
        p = op['p']
        ups = 0 if p['abs'] else p['ups']
        # ".." from a List member stops at its position first
        s, up, steps = self.text(p, ups)
        e = at
        for k in range(up):
            e = e.parent if e.parent is not None else e
        while not p['abs'] and isinstance(e, c.W.schema.Slot):
            ups += 1
            s, up, steps = self.text(p, ups)
            e = e.parent
        if op['slash'] and s and not s.endswith(u'/') and steps:
            s += u'/'
        if not s:
            return
        if op['raw']:
            try:
                s = s.encode('ascii')
            except UnicodeError:
                pass
        want, missing = self.evaluate(at, root, p['abs'], up, steps, c)
        strict, single = op['strict'], op['single']
        r = sim.op('find %s' % repr(s), f, lambda: at.find(
            s, single=single, strict=strict))
        if r[0] == 'fault':
            return
        if strict and missing:
            exp = LookupError
        elif single and not want:
            exp = None
        elif single and len(want) > 1:
            exp = LookupError if strict else want
        elif single:
            exp = want[0]
        else:
            exp = want
        if want and len(steps) > 1:
            sim.probe('deep-hit')
        msg = 'find(%r, single=%r, strict=%r) ' % (s, single, strict)
        if exp is LookupError:
            if r[0] != 'exc' or not isinstance(r[1], LookupError):
                sim.fail('lookup', msg + 'gave %r, not LookupError' % (r,))
            return
        if r[0] == 'exc':
            sim.fail('lookup', msg + 'raised %r' % (r[1],))
        got = r[1]
        if single and len(want) > 1:
            if not [x for x in want if x is got]:
                sim.fail('lookup', msg + 'gave something else')
        elif single:
            if got is not exp:
                sim.fail('lookup', msg + 'gave %r not %r' % (got, exp))
        elif len(got) != len(exp) or [
                1 for a, b in zip(got, exp) if a is not b]:
            sim.fail('lookup', msg + 'gave %r, expected %r' % (got, exp))


def o_ok(op):
    return op['o'] in ('find', 'bad')
