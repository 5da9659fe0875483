# -*- coding: utf-8 -*-
"""D01: defaults."""
import copy

import gen
import history as hi
import model
import p_common as pc
from base import register, ntasks
from history import Hist, Skip, ANY
from model import N, ModelError, dv
from p_tree import TreeProp, TreeCtx, hooks

UN = 'unspecified'


class Denoted(object):
    """What a default denotes: a value, nothing (None), or do nothing."""

    def __init__(self, v):
        self.v = v


def fit(rng, s):
    """A default for a spec, encoded, or None."""
    k = s['k']
    if k == 'List' and gen.chance(rng, 0.4):
        return gen.some(rng, 0, 3)
    for i in range(4):
        d = gen.value_for(rng, s, 0.9)
        if k in model.SCALARS:
            if isinstance(d, dict) and ('l' in d or 'b' in d):
                continue
            return d
        if d is None or k not in model.COMPS and isinstance(
                d, (int, unicode)):
            continue
        if gen.default_ok(s, d):
            return d
    return None


def add_defaults(rng, spec, p=0.55):
    n = [0]
    for s in gen.walk(spec):
        s.pop('def', None)
        k = s['k']
        if not gen.chance(rng, p if k in model.SCALARS else p * 0.7):
            continue
        d = fit(rng, s)
        if d is None and k not in model.SCALARS:
            continue
        r = rng.random()
        if r < 0.5:
            if d is not None:
                s['def'] = d
        elif r < 0.57:
            s['undef'] = True
        else:
            kind = gen.pick(rng, ['const', 'const', 'shared', 'shared',
                                  'eldef', 'none', 'unspec', 'nested',
                                  'count', 'count', 'other'])
            if kind == 'count' and k not in ('Integer', 'String', 'List'):
                kind = 'shared'
            if kind in ('eldef', 'other') and d is not None:
                s['def'] = d
            n[0] += 1
            s['fac'] = {'kind': kind, 'v': d, 'id': n[0],
                        'iter': k in ('Array', 'MultiValue') and
                        gen.chance(rng, 0.4)}
    return spec


class DefCtx(TreeCtx):

    def __init__(self, P, plan, sim, W):
        self.sim, self.plan, self.W = sim, plan, W
        self.calls = {}           # task -> [(element, what it gave)]
        self.facs = {}            # id(spec) -> function
        self.given = []           # (class, attribute, object, its copy)
        self.n = 0
        fl = W.fl
        self.Other = fl.Dict.of(
            fl.Integer.named(u'p').using(default=4),
            fl.List.named(u'q').of(fl.String).using(default=[u'1', u'2']))
        TreeCtx.__init__(self, P, plan, sim, W, self.attach)

    def me(self):
        t = self.sim.cur
        return t.idx if t is not None else -1

    def literal(self, v):
        """The default object for an encoded value, watched."""
        x = dv(v)
        self.given.append((x, copy.deepcopy(x)))
        return x

    def attach(self, spec, cls):
        if spec.get('undef'):
            return cls.using(default=self.W.util.Unspecified)
        if spec.get('def') is not None:
            cls = cls.using(default=self.literal(spec['def']))
        if spec.get('fac'):
            f = self.facs[id(spec)] = self.factory(spec['fac'])
            cls = cls.using(default_factory=f)
        return cls

    def factory(self, f):
        sim, W = self.sim, self.W
        kind = f['kind']
        shared = self.literal(f['v'])

        def default_factory(element):
            sim.cb('factory')
            if not isinstance(element, W.schema.Element):
                sim.fail('argument', 'a default_factory was called with %r' %
                         (element,))
            v = shared
            if kind == 'const':
                v = dv(f['v'])
            elif kind == 'eldef':
                v = element.default
            elif kind == 'none':
                v = None
            elif kind == 'unspec':
                v = W.util.Unspecified
            elif kind == 'count':
                self.n += 1
                v = self.n
                if isinstance(element, W.fl.String):
                    v = u'c%d' % v
                elif isinstance(element, W.fl.List):
                    v = v % 4
            elif kind == 'other':
                # refer to another element's default
                o = type(element)(default=dv(f['v']), default_factory=None)
                v = o.default_value
            elif kind == 'nested':
                o = self.Other.from_defaults()
                if o.value != {u'p': 4, u'q': [u'1', u'2']}:
                    sim.fail('nested', 'from_defaults inside a factory gave '
                             '%r' % (o.value,))
                o[u'q'].append(u'3')
                o[u'p'].set(9)
            rec = v
            if f.get('iter') and isinstance(v, (list, tuple)):
                rec = list(v)
                v = iter(rec)
            self.calls.setdefault(self.me(), []).append(
                (element, copy.deepcopy(rec)
                 if rec is not W.util.Unspecified else rec))
            sim.cb('made')
            return v
        return default_factory

    def denoted(self, h, e, n, log):
        """What the default of *e* denotes: a value, None or UN."""
        spec = n.spec
        over = h.over if e is h.e and h.over else spec
        if over.get('undef'):
            return UN
        if over.get('fac'):
            got = [v for x, v in log if x is e]
            if not got:
                self.sim.fail('factory', 'the default_factory of %s was not '
                              'called with it' % e.fq_name())
            h.used.append(id(e))
            v = got[-1]
            return UN if v is self.W.util.Unspecified else v
        d = over.get('def')
        return dv(d) if d is not None else None

    def apply(self, h, e, n, log):
        """set_default on the model, knowing what the factories gave."""
        d = self.denoted(h, e, n, log)
        k = n.k

        def below(f):
            if f not in e:
                self.sim.fail('state', '%s lacks %r' % (e.fq_name(), f))
            self.apply(h, e[f], n.fields[f], log)
        if k in model.SCALARS:
            if d is not UN:
                n.set(d)
            return
        if d is UN:
            d = None
        if k == 'List':
            if d is None:
                return
            n.kids = []
            if isinstance(d, int):
                for i in range(d):
                    m = n.blank_member()
                    if i >= len(e):
                        self.sim.fail('state', '%s has %d members, should '
                                      'have %d' % (e.fq_name(), len(e), d))
                    self.apply(h, e[i], m, log)
            else:
                n.set(d)
        elif k in model.SEQS:
            if d is not None:
                n.kids = []
                for x in d:
                    n.blank_member().set(x)
        elif d is not None:
            n.set(d)
        else:
            if k == 'SparseDict':
                n.reset()
            for f in list(n.fields):
                below(f)


class DefHist(Hist):
    over = None

    def __init__(self, *a, **kw):
        Hist.__init__(self, *a, **kw)
        self.used = []

    def model_default(self, e, n, log):
        self.used = []
        self.c.apply(self, e, n, log)
        for x, v in log:
            if id(x) not in self.used:
                self.sim.fail('factory', 'a default_factory was called with '
                              'an element that is not being defaulted')

    def failed(self, op, e, snap, what):
        Hist.failed(self, op, e, snap, what)
        self.sim.probe('failed')

    def fault_seen(self, op, r, what):
        # Compound.set() turns what explode() raises into False
        t = self.sim.cur
        if r[0] == 'ok' and t.fault_site in ('explode', 'half', 'exploded') \
                and t.fault_fired != 'kill':
            self.sim.probe('quashed')
            return
        Hist.fault_seen(self, op, r, what)

    def begin(self):
        self.log = self.c.calls[self.c.me()] = []

    def op_default(self, op, e, n):
        """set_default of any element."""
        def real():
            self.begin()
            if e.set_default() not in (None, True, False):
                raise AssertionError()

        def mod():
            self.model_default(e, n, self.log)
            self.sim.probe('defaulted')
            if self.log:
                self.sim.probe('factories')
            return ANY
        return real, mod

    def op_value(self, op, e, n):
        """default_value, which changes nothing."""
        got = []

        def real():
            self.begin()
            got[:] = [e.default_value]

        def mod():
            self.used = []
            d = self.c.denoted(self, e, n, self.log)
            v = got[0]
            if v is self.W.util.Unspecified:
                v = UN
            if hasattr(v, 'next'):
                v = list(v)
            if not model.same_value(pc.canon(v), pc.canon(d)):
                self.sim.fail('default', 'default_value of %s is %r, should '
                              'be %r' % (e.fq_name(), v, d))
            return ANY
        return real, mod

    def op_fresh(self, op, e, n):
        """A new tree: from_defaults, perhaps with a default of its own."""
        over = op.get('over')
        kw = {}
        if over:
            if 'def' in over:
                kw['default'] = self.c.literal(over['def'])
                kw['default_factory'] = None
            else:
                kw['default_factory'] = self.c.factory(over['fac'])
        made = []

        def real():
            self.begin()
            made.append(self.cls.from_defaults(**kw))

        def mod():
            self.e, self.node = made[0], N(self.spec)
            self.over = over
            self.model_default(self.e, self.node, self.log)
            self.sim.probe('fresh')
            if self.log:
                self.sim.probe('factories')
            return ANY
        return real, mod


@register
class D01(TreeProp):
    ID = 'D01'
    HIST = DefHist
    CHUNK = 40
    OPS = (6, 14)
    RULE = ('Random schemas with defaults anywhere: literals, integers for '
            'Lists, Unspecified, and factories (fresh or shared values, '
            'counters, iterators, using the default of the element, None, '
            'Unspecified, defaulting other elements); from_defaults with and '
            'without overrides, set_default and default_value of any '
            'element, mixed with all kinds of changes, 35% of the '
            'defaultings failing in a factory or conversion and then '
            'repeated; 1 to 3 tasks on one schema; what each factory was '
            'called with and gave is compared with the tree; non-trivial: '
            'a factory ran, and a defaulting followed a change.')

    def nontrivial(self, plan, sim):
        p = sim.probes
        return bool(p.get('factories') and p.get('changes', 0) > 2)

    def schema(self, rng):
        kinds = ('Dict', 'Form', 'SparseDict', 'List', 'List', 'Array',
                 'MultiValue', 'JoinedString', 'YMD', 'PT')
        s = gen.top_schema(rng, gen.pick(rng, [1, 2, 2]), kinds, width=3)
        return add_defaults(rng, s)

    def op_for(self, rng, specs):
        r = rng.random()
        i = 0 if gen.chance(rng, 0.4) else rng.randrange(len(specs))
        if r < 0.45:
            while True:
                op = hi.any_op(rng, specs)
                if op['o'] != 'default':
                    return op
        if r < 0.7:
            op = {'o': 'default'}
        elif r < 0.8:
            op = {'o': 'value'}
        else:
            i = 0
            op = {'o': 'fresh'}
            if gen.chance(rng, 0.35):
                d = fit(rng, specs[0])
                if d is not None:
                    op['over'] = {'def': d} if gen.chance(rng, 0.5) else {
                        'fac': {'kind': gen.pick(rng, ['const', 'shared']),
                                'v': d, 'id': 0}}
        op['s'] = i
        op['w'] = rng.randrange(100)
        if gen.chance(rng, 0.4):
            op['again'] = True
        return op

    def gen(self, rng):
        p = TreeProp.gen(self, rng)
        for ops in p['tasks']:
            for op in ops:
                op.pop('f', None)
                if op['o'] in ('default', 'fresh', 'value') and \
                        gen.chance(rng, 0.35):
                    site = gen.pick(rng, ['factory', 'made', None])
                    op['f'] = gen.cb_fault(rng, gen.pick(rng, [1, 2, 5]),
                                           site=site)
                elif gen.chance(rng, 0.05):
                    op['f'] = gen.cb_fault(rng, 3)
        return p

    def setup(self, plan, sim, W):
        return DefCtx(self, plan, sim, W)

    def do(self, c, i, op):
        TreeProp.do(self, c, i, op)
        h = c.hist[i]
        if op.get('again'):
            h.apply(dict(op, f=None))
        self.unaltered(c)

    def unaltered(self, c):
        """No default has changed, in its content or as the schema's."""
        for x, old in c.given:
            if not model.same_value(pc.canon(x), pc.canon(old)):
                c.sim.fail('altered', 'a default changed from %r to %r' % (
                    old, x))

    def finish(self, c):
        TreeProp.finish(self, c)
        self.unaltered(c)
        un = c.W.util.Unspecified
        for s in c.specs:
            cls = c.classes.get(id(s))
            if cls is None:
                continue
            if s.get('fac') and cls.default_factory is not \
                    c.facs[id(s)] or not s.get('fac') and \
                    cls.default_factory is not None:
                c.sim.fail('altered', 'default_factory of %s changed' % s)
            d = cls.default
            want = un if s.get('undef') else \
                dv(s['def']) if s.get('def') is not None else None
            if d is not want and not model.same_value(pc.canon(d),
                                                      pc.canon(want)):
                c.sim.fail('altered', 'the default of %r is %r' % (s, d))
