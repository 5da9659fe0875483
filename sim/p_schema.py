# -*- coding: utf-8 -*-
"""S01 shared schemas, S02 derivation, S03 compound preparation, S08 reads."""
import datetime

import core
import gen
import model
import world
import p_common as pc
from base import Prop, Ctx, register, ntasks
from core import SimFault, SimAbort


def enrich(rng, spec):
    pc.add_validators(rng, spec)
    for s in model_walk(spec):
        if rng.random() < 0.15:
            s['props'] = [['p1', gen.some(rng, 0, 9)]]
    return spec


def model_walk(spec):
    return list(gen.walk(spec))


# -- S01 --------------------------------------------------------------------

class Request(object):
    """One request: an element of its own and what was seen of it."""

    def __init__(self, W, classes, specs, sim):
        self.W = W
        self.classes = classes
        self.specs = specs
        self.sim = sim
        self.e = None
        self.gen = None
        self.log = []

    def scalars(self):
        fl = self.W.fl
        return [x for x in [self.e] + list(self.e.all_children)
                if isinstance(x, fl.Scalar)
                and not isinstance(x, (fl.JoinedString,))]

    def seqs(self):
        fl = self.W.fl
        return [x for x in [self.e] + list(self.e.all_children)
                if isinstance(x, fl.Sequence)]

    def step(self, op):
        o = op['o']
        fl = self.W.fl
        if o == 'new':
            cls = self.classes[op['s']]
            x = model.dv(op['x']) if op.get('x') is not None else None
            how = op['how']
            if how == 'value':
                self.e = cls()
                return self.e.set(x)
            if how == 'ctor':
                self.e = cls(x)
            elif how == 'flat':
                self.e = cls()
                self.e.set_flat([tuple(p) for p in op['pairs']])
            elif how == 'fromflat':
                self.e = cls.from_flat([tuple(p) for p in op['pairs']])
            elif how == 'defaults':
                self.e = cls.from_defaults()
            elif how == 'named':
                self.e = cls.named(u'other')()
                return self.e.set(x)
            elif how == 'using':
                self.e = cls.using(optional=True)()
                return self.e.set(x)
            elif how == 'opt':
                self.e = cls(optional=True)
            else:
                self.e = cls()
            return None
        e = self.e
        if e is None:
            return None
        if o == 'set':
            return e.set(model.dv(op['x']))
        if o == 'flat':
            return e.set_flat([tuple(p) for p in op['pairs']])
        if o == 'default':
            return e.set_default()
        if o == 'leaf':
            xs = self.scalars()
            if not xs:
                return None
            return xs[op['w'] % len(xs)].set(model.dv(op['x']))
        if o == 'grow':
            xs = self.seqs()
            if not xs:
                return None
            s = xs[op['w'] % len(xs)]
            if op['how'] == 'append':
                s.append(model.dv(op['x']))
            elif op['how'] == 'extend':
                s.extend([model.dv(op['x'])])
            elif op['how'] == 'insert':
                s.insert(0, model.dv(op['x']))
            elif op['how'] == 'pop':
                if len(s):
                    s.pop()
            else:
                del s[:]
            return len(s)
        if o == 'validate':
            st = None
            if op.get('lang'):
                st = pc.State(op['lang'], self.sim)
            return [e.validate(st), self.errors()]
        if o == 'errors':
            return self.errors()
        if o == 'flatten':
            return sorted(e.flatten())
        if o == 'value':
            return e.value
        if o == 'tree':
            return ['tree', pc.tree(e, self.W)]
        if o == 'el':
            return [x.u if isinstance(x, fl.Scalar) else None for x in
                    [e.el(y.fq_name()) for y in e.all_children]]
        if o == 'find':
            out = []
            for y in list(e.all_children)[:6]:
                p = u'/' + u'/'.join([pc.escape(n) for n in
                                      y.fq_name().split(u'.')[1:]])
                out.append([z.value for z in e.find(p, strict=False)])
            return out
        if o == 'prop':
            xs = [e] + list(e.all_children)
            x = xs[op['w'] % len(xs)]
            x.properties[u'mine'] = op['x']
            return sorted(x.properties.items(), key=repr)
        if o == 'render':
            return self.render(op)
        if o == 'object':
            class Obj(object):
                pass
            ob = Obj()
            if not hasattr(e, 'update_object'):
                return None
            if op['how'] == 'in':
                for k, v in op['attrs']:
                    setattr(ob, str(k), model.dv(v))
                e.set_by_object(ob)
                return e.value
            names = [k for k in e.keys() if all([ord(c) < 128 for c in k])]
            e.update_object(ob, include=names)
            return sorted(ob.__dict__.items())
        if o == 'slice':
            if not hasattr(e, 'slice'):
                return None
            return e.slice(omit=[u'a'])
        if o == 'cmp':
            other = type(e)()
            return [e == other, e != other, e == e]
        if o == 'alien':
            e.u, e.value
            raise KeyError('the request fails')
        raise KeyError(o)

    def errors(self):
        return sorted([[x.fq_name(), bool(x.valid), x.errors, x.warnings]
                       for x in [self.e] + list(self.e.all_children)])

    def render(self, op):
        G = self.W.markup.Generator
        if self.gen is None:
            self.gen = G(op['markup'])
        g = self.gen
        g.begin(auto_domid=True, auto_for=True, auto_tabindex=True,
                tabindex=op['tab'])
        out = []
        try:
            for x in self.scalars()[:4]:
                out.append(unicode(g.label(x, contents=x.label)))
                out.append(unicode(g.input(x, type='text')))
                if op['w'] % 2:
                    out.append(unicode(g.textarea(x)))
                if op['w'] % 3 == 0:
                    out.append(unicode(g.input(x, type='checkbox')))
        finally:
            g.end()
        return out


def run_request(req, ops, sim, log):
    """Run *ops*; append canonical results.  Stops at an injected fault."""
    for op in ops:
        r = sim.op(op['o'], op.get('f') if req.sim is not None else None,
                   req.step, op)
        if r[0] == 'fault' or (req.sim is not None and sim.fault_hit):
            # the request died here
            log.append(None)
            return
        if r[0] == 'exc':
            log.append(['exc', type(r[1]).__name__])
        else:
            log.append(pc.canon(r[1], req.W))
        if op['o'] in ('value', 'tree') and req.e is None:
            return


def request_ops(rng, specs, fault, full=False):
    s = rng.randrange(len(specs))
    spec = specs[s]

    def value():
        return gen.value_for(rng, spec, 0.8)
    how = gen.pick(rng, ['value', 'value', 'ctor', 'flat', 'flat', 'fromflat',
                         'defaults', 'defaults', 'named', 'using', 'opt',
                         'plain'])
    op = {'o': 'new', 's': s, 'how': how}
    if how in ('value', 'ctor', 'named', 'using'):
        op['x'] = value()
    if how in ('flat', 'fromflat'):
        op['pairs'] = gen.pairs_for(rng, spec)
    ops = [op]
    leaves = [x for x in gen.walk(spec) if x['k'] in model.SCALARS]
    seqs = [x for x in gen.walk(spec) if x['k'] in model.SEQS]
    for _ in range(gen.some(rng, 2, 7)):
        r = rng.random()
        if r < 0.1:
            op = {'o': 'set', 'x': value()}
        elif r < 0.18:
            op = {'o': 'flat', 'pairs': gen.pairs_for(rng, spec)}
        elif r < 0.28 and leaves:
            op = {'o': 'leaf', 'w': rng.randrange(1000),
                  'x': gen.value_for(rng, gen.pick(rng, leaves), 0.8)}
        elif r < 0.36 and seqs:
            sq = gen.pick(rng, seqs)
            op = {'o': 'grow', 'w': rng.randrange(1000), 'how': gen.pick(
                rng, ['append', 'append', 'extend', 'insert', 'pop',
                      'clear']),
                'x': gen.value_for(rng, model.N(sq).member_spec(), 0.8)}
        elif r < 0.56:
            op = {'o': 'validate', 'lang': gen.pick(
                rng, [None, None, u'de', u'fr', u'es'])}
        elif r < 0.6:
            op = {'o': 'default'}
        elif r < 0.66:
            op = {'o': 'tree'}
        elif r < 0.7:
            op = {'o': 'flatten'}
        elif r < 0.74:
            op = {'o': gen.pick(rng, ['el', 'find', 'cmp', 'slice'])}
        elif r < 0.79:
            op = {'o': 'prop', 'w': rng.randrange(1000),
                  'x': rng.randrange(100)}
        elif r < 0.9:
            op = {'o': 'render', 'w': rng.randrange(6), 'tab': gen.pick(
                rng, [1, 10, 100]), 'markup': gen.pick(
                    rng, ['xhtml', 'html', 'xml'])}
        elif r < 0.96:
            kids = spec.get('of') or []
            op = {'o': 'object', 'how': gen.pick(rng, ['in', 'out']),
                  'attrs': [[c['n'], gen.value_for(rng, c, 0.9)]
                            for c in kids if c.get('n') and
                            all([ord(ch) < 128 for ch in c['n']])]}
        else:
            op = {'o': 'value'}
        ops.append(op)
    ops.append({'o': 'validate', 'lang': None})
    ops.append({'o': 'tree'})
    if fault:
        for op in ops:
            if rng.random() < 0.12:
                op['f'] = gen.cb_fault(rng, 3) if rng.random() < 0.3 else \
                    gen.pt_fault(rng, 500)
    return ops


@register
class S01(Prop):
    ID = 'S01'
    QUICK = 80
    THOROUGH = 2600
    CHUNK = 12
    RULE = ('2-3 tasks run random request scripts (fill, validate, query, '
            'flatten, render, derive) on schemas they share, some aborted by '
            'a fault at a random statement or callback; every transcript is '
            'compared with the same script run alone on fresh schemas in a '
            'second copy of the package; non-trivial: a preemption inside '
            'the library or a fired fault.')
    STUB = 'translators (harness functions)'

    def gen(self, rng):
        nt = ntasks(rng, 0.1, 3)
        fault = gen.chance(rng, 0.5)
        specs = [enrich(rng, gen.top_schema(rng, gen.some(rng, 1, 2),
                                            opts=('def',), width=3))
                 for _ in range(gen.some(rng, 1, 2))]
        tasks = []
        for t in range(nt):
            reqs = [request_ops(rng, specs, fault)
                    for _ in range(gen.some(rng, 1, 2 if nt > 1 else 4))]
            tasks.append(reqs)
        return {'tasks': tasks, 'specs': specs, 'sched': gen.sched(rng, nt),
                'probe': [request_ops(rng, specs, False)
                          for _ in range(2)]}

    def build(self, W, specs):
        cache = {}
        return [gen.build(s, W, None, pc.with_validators(W, cache))
                for s in specs]

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.classes = self.build(W, plan['specs'])
        c.logs = []
        return c

    def do(self, c, i, ops):
        log = []
        c.logs.append((i, ops, log))
        req = Request(c.W, c.classes, c.plan['specs'], c.sim)
        run_request(req, ops, c.sim, log)

    def finish(self, c):
        for ops in c.plan['probe']:
            log = []
            c.logs.append(('later', ops, log))
            run_request(Request(c.W, c.classes, c.plan['specs'], None), ops,
                        c.sim, log)
        T = world.get('twin')
        T.activate()
        try:
            for i, ops, log in c.logs:
                alone = []
                # a fresh program: fresh schemas for every request
                classes = self.build(T, c.plan['specs'])
                run_request(Request(T, classes, c.plan['specs'], None), ops,
                            c.sim, alone)
                for j, x in enumerate(log):
                    if x is None:
                        c.sim.probe('aborted-request')
                        break
                    y = alone[j]
                    if x != y:
                        c.sim.fail('differs', 'request of task %s, step %d '
                                   '%s: shared / alone: %s' % (
                                       i, j, ops[j]['o'],
                                       pc.first_diff(x, y)))
                    c.sim.probe('compared')
        finally:
            c.W.activate()


# -- S08 --------------------------------------------------------------------

@register
class S08(Prop):
    ID = 'S08'
    QUICK = 80
    THOROUGH = 2600
    CHUNK = 15
    RULE = ('2-4 tasks read one shared element tree (value, u, flatten, '
            'find, el, iteration, membership, family, defaults, comparison, '
            'slicing, rendering); answers are compared with a single '
            'reader\'s on an equal tree in a second copy of the package, and '
            'the tree with its snapshot; non-trivial: a preemption inside '
            'the library.')

    def nontrivial(self, plan, sim):
        return sim.preempts > 0

    READS = ['value', 'u', 'flatten', 'flat2', 'find', 'el', 'iter', 'in',
             'family', 'default', 'cmp', 'slice', 'render', 'tree', 'xa',
             'all', 'keys', 'names', 'valid', 'repr', 'index', 'hash',
             'root', 'compound', 'get', 'props', 'label', 'unicode',
             'container_in', 'rev']

    def gen(self, rng):
        nt = gen.some(rng, 2, 4)
        spec = enrich(rng, gen.top_schema(rng, gen.some(rng, 1, 3),
                                          opts=('def',), width=3))
        tasks = []
        few = [gen.pick(rng, self.READS) for _ in range(3)]
        for t in range(nt):
            tasks.append([{'o': gen.pick(rng, few) if gen.chance(rng, 0.5)
                           else gen.pick(rng, self.READS),
                           'w': rng.randrange(1000),
                           'x': gen.pick(rng, gen.TEXTS)}
                          for _ in range(gen.some(rng, 2, 6))])
        return {'tasks': tasks, 'spec': spec, 'sched': gen.sched(rng, nt),
                'x': gen.value_for(rng, spec, 0.9),
                'pairs': gen.pairs_for(rng, spec),
                'how': gen.pick(rng, ['set', 'flat', 'default', 'plain']),
                'validate': gen.chance(rng, 0.5),
                'at_first': gen.chance(rng, 0.3)}

    def make(self, W, plan):
        cls = gen.build(plan['spec'], W, None, pc.with_validators(W, {}))
        e = cls()
        how = plan['how']
        try:
            if how == 'set':
                e.set(model.dv(plan['x']))
            elif how == 'flat':
                e.set_flat([tuple(p) for p in plan['pairs']])
            elif how == 'default':
                e.set_default()
        except (TypeError, ValueError, KeyError):
            pass
        if plan['validate']:
            try:
                e.validate()
            except (TypeError, ValueError, AssertionError, LookupError,
                    AttributeError):
                pass
        return e

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.e = self.make(W, plan)
        c.ids = self.identity(c.e)
        c.got = []
        # reading it once beforehand would warm every cache: the snapshot
        # comes from the twin
        return c

    def identity(self, e):
        return [(id(x), id(x.parent)) for x in [e] + list(e.all_children)]

    def read(self, W, e, op):
        fl = W.fl
        o = op['o']
        els = [e] + list(e.all_children)
        x = els[op['w'] % len(els)]
        if o == 'value':
            return [y.value for y in els]
        if o == 'u':
            return [y.u for y in els if isinstance(y, fl.Scalar)]
        if o == 'flatten':
            return sorted(e.flatten())
        if o == 'flat2':
            return sorted(x.flatten(sep=u'.', value=lambda el: el.value),
                          key=repr)
        if o == 'find':
            out = []
            for y in els[1:6]:
                p = u'/' + u'/'.join([pc.escape(n) for n in
                                      y.fq_name().split(u'.')[1:]])
                out.append([z is y for z in x.find(p)])
            out.append([z.value for z in x.find(u'[:]', strict=False)])
            return out
        if o == 'el':
            return [x.el(y.fq_name()) is y for y in els]
        if o == 'iter':
            if isinstance(x, fl.Mapping):
                return sorted(list(x))
            if isinstance(x, fl.Sequence):
                return [y.value for y in x]
            return None
        if o == 'in':
            if isinstance(x, fl.Mapping):
                return [op['x'] in x, x.may_contain(op['x']),
                        u'a' in x]
            if isinstance(x, fl.Sequence):
                return [op['x'] in x, None in x]
            return None
        if o == 'container_in':
            return [x in y for y in els if isinstance(y, fl.List)]
        if o == 'family':
            return [[p.name for p in x.parents if hasattr(p, 'name')],
                    [p.name for p in x.path if hasattr(p, 'name')],
                    sorted([k.name for k in x.children]), x.root is e]
        if o == 'default':
            return [y.default_value for y in els]
        if o == 'cmp':
            return [x == x, x != x, x == 3, x == els[0], e == x]
        if o == 'slice':
            if isinstance(x, fl.Dict):
                return sorted(x.slice(omit=[u'b']).items())
            if isinstance(x, fl.Sequence):
                return [y.value for y in x[0:2]]
            return None
        if o == 'render':
            g = W.markup.Generator(auto_domid=True, auto_for=True)
            out = []
            for y in els[:5]:
                if isinstance(y, fl.Scalar) and y.name:
                    out.append(unicode(g.input(y)))
                    out.append(unicode(g.label(y)))
            return out
        if o == 'tree':
            return ['tree', pc.tree(e, W)]
        if o == 'xa':
            return [[y.x, y.xa] for y in els if isinstance(y, fl.Scalar)]
        if o == 'all':
            return [y.flattened_name() for y in e.all_children]
        if o == 'keys':
            if isinstance(x, fl.Mapping):
                return sorted(x.keys()) + sorted([y.name for y in
                                                  x.values()])
            return None
        if o == 'names':
            return [[y.name, y.label, y.flattened_name(u'/')] for y in els]
        if o == 'valid':
            return [[bool(y.valid), bool(y.all_valid), y.errors, y.warnings]
                    for y in els]
        if o == 'repr':
            return [isinstance(repr(y), str) for y in els]
        if o == 'index':
            if isinstance(x, fl.Sequence) and len(x):
                return [x.index(x[-1]) >= 0, x.count(x[0])]
            return None
        if o == 'hash':
            try:
                hash(x)
            except TypeError:
                return 'unhashable'
            return 'hashable'
        if o == 'root':
            return [y.root is e for y in els]
        if o == 'compound':
            return [[y.value, y.u, y.is_empty] for y in els
                    if isinstance(y, fl.Compound)]
        if o == 'get':
            if isinstance(x, fl.Dict):
                return x.get(x.keys()[0]).value if x.keys() else None
            return None
        if o == 'props':
            return [sorted(y.properties.items()) for y in els]
        if o == 'label':
            return [y.label for y in els]
        if o == 'unicode':
            return [unicode(y) if isinstance(y, fl.String) else None
                    for y in els]
        if o == 'rev':
            if isinstance(x, fl.Sequence):
                return [[y.value for y in reversed(x)], len(x), bool(x),
                        [y.value for y in x[::-1]]]
            return None
        raise KeyError(o)

    def do(self, c, i, op):
        r = c.sim.op(op['o'], None, self.read, c.W, c.e, op)
        c.got.append((i, op, ['exc', type(r[1]).__name__]
                      if r[0] == 'exc' else pc.canon(r[1], c.W)))

    def finish(self, c):
        if self.identity(c.e) != c.ids:
            c.sim.fail('changed', 'reading replaced elements of the tree')
        T = world.get('twin')
        T.activate()
        try:
            e = self.make(T, c.plan)
            want = pc.tree(e, T)
            for i, op, x in c.got:
                try:
                    y = pc.canon(self.read(T, e, op), T)
                except Exception, ex:
                    y = ['exc', type(ex).__name__]
                if x != y:
                    c.sim.fail('differs', 'task %d %s: shared / alone: %s' % (
                        i, op['o'], pc.first_diff(x, y)))
        finally:
            c.W.activate()
        got = pc.tree(c.e, c.W)
        if got != want:
            c.sim.fail('changed', 'the tree changed: %s' % pc.first_diff(
                got, want))


# -- S02 --------------------------------------------------------------------

def _v1(e, s):
    return True


def _v2(e, s):
    return True


def _v3(e, s):
    return False


VS = [_v1, _v2, _v3]
ATTRS = ['name', 'optional', 'default', 'label', 'strip', 'format', 'signed',
         'prune_empty', 'separator', 'separator_regex', 'policy',
         'minimum_fields', 'maximum_set_flat_members', 'true', 'false',
         'writable', 'validates_down', 'validates_up', 'flattenable']


def look(cls):
    """The observable configuration of a class."""
    out = {}
    for a in ATTRS:
        out[a] = repr(getattr(cls, a, 'n/a'))
    for a in ('validators', 'descent_validators'):
        v = getattr(cls, a, None)
        out[a] = None if v is None else [id(x) for x in v]
    out['valid_values'] = None if not hasattr(cls, 'valid_values') else \
        list(cls.valid_values)
    out['target_path'] = repr(getattr(cls, 'target_path', None))
    out['properties'] = dict(cls.properties.items())
    fs = getattr(cls, 'field_schema', None)
    out['field_schema'] = None if fs is None else [id(x) for x in fs]
    out['member_schema'] = id(getattr(cls, 'member_schema', None))
    return out


KINDS = ['String', 'Integer', 'Boolean', 'Enum', 'Dict', 'SparseDict',
         'List', 'Array', 'MultiValue', 'JoinedString', 'Form', 'Ref',
         'Date']


@register
class S02(Prop):
    ID = 'S02'
    QUICK = 100
    THOROUGH = 3000
    RULE = ('Random derivation histories (named, using, validated_by, '
            'including, descent variants, with_properties, of, valued, to, '
            'constructor overrides, Form subclassing) over a growing pool of '
            'classes by 1-3 tasks, some interrupted; every class and element '
            'ever made is compared with its recorded configuration; '
            'non-trivial: a preemption inside the library, a fired fault or '
            'four derivations.')

    def nontrivial(self, plan, sim):
        return sim.preempts > 0 or bool(sim.fired) or \
            sim.probes.get('derived', 0) >= 4

    HOW = ['named', 'named', 'using', 'using', 'usingv', 'usingp', 'vb', 'iv',
           'iv', 'dvb', 'div', 'wp', 'wp', 'of', 'of', 'valued', 'to',
           'ctor', 'ctor', 'ctorv', 'ctorp', 'sub', 'sub', 'label',
           'element', 'setprop', 'bad']

    def gen(self, rng):
        nt = ntasks(rng, 0.4, 3)
        fault = gen.chance(rng, 0.4)
        tasks = []
        u = 0
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 4, 12 if nt == 1 else 7)):
                u += 1
                op = {'o': gen.pick(rng, self.HOW), 'w': rng.randrange(10000),
                      'w2': rng.randrange(10000), 'u': u,
                      'v': [rng.randrange(3)
                            for _ in range(gen.some(rng, 0, 3))],
                      'pos': gen.pick(rng, [None, None, 0, 1, -1, -2, 5])}
                if fault and gen.chance(rng, 0.25):
                    op['f'] = gen.pt_fault(rng, 30)
                elif gen.chance(rng, 0.25):
                    op['again'] = True
                ops.append(op)
            tasks.append(ops)
        kinds = list(KINDS)
        rng.shuffle(kinds)
        return {'tasks': tasks, 'sched': gen.sched(rng, nt),
                'kinds': kinds[:gen.some(rng, 2, 5)]}

    def start(self, k, fl, n):
        cls = getattr(fl, k)
        if k in ('Dict', 'SparseDict'):
            cls = cls.of(fl.String.named(u'a'), fl.Integer.named(u'b'))
        elif k in ('List', 'Array', 'MultiValue', 'JoinedString'):
            cls = cls.of(fl.String.named(u'm'))
        elif k == 'Enum':
            cls = cls.valued(u'r', u'g')
        elif k == 'Form':
            cls = type('F', (fl.Form,), {'a': fl.String, 'b': fl.Integer})
        elif k == 'Ref':
            cls = cls.to(u'a.b')
        if n % 2:
            cls = cls.validated_by(_v1).with_properties(base=n)
        return cls.named(u's%d' % n)

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.pool = []            # [class, kind, config]
        c.els = []             # [element, class config, own overrides]
        for n, k in enumerate(plan['kinds']):
            cls = self.start(k, W.fl, n)
            c.pool.append([cls, k, look(cls), None])
        c.roots = [(getattr(W.fl, k), look(getattr(W.fl, k)))
                   for k in KINDS]
        return c

    def do(self, c, i, op):
        single = len(c.plan['tasks']) == 1
        fl, sim, f = c.W.fl, c.sim, op.get('f')
        cls, k, cfg, owner = c.pool[op['w'] % len(c.pool)]
        o, u = op['o'], op['u']
        want = dict(cfg)
        late = []
        vs = [VS[x] for x in op['v']]
        if o == 'named':
            n = None if u % 5 == 0 else u'n%d' % u if u % 2 else 'n%d' % u
            fn = lambda: cls.named(n)
            want['name'] = repr(n if n is None else unicode(n))
            if cfg['label'] == cfg['name']:
                want['label'] = want['name']
        elif o == 'using':
            fn = lambda: cls.using(optional=bool(u % 2), default=u)
            want['optional'] = repr(bool(u % 2))
            want['default'] = repr(u)
        elif o == 'usingv':
            l = list(vs)
            late.append(l)
            fn = lambda: cls.using(validators=l)
            want['validators'] = [id(x) for x in vs]
        elif o == 'usingp':
            p = {u'up': u}
            late.append(p)
            fn = lambda: cls.using(properties=p)
            want['properties'] = {u'up': u}
        elif o == 'vb':
            fn = lambda: cls.validated_by(*vs)
            want['validators'] = [id(x) for x in vs]
        elif o in ('iv', 'div'):
            a = 'validators' if o == 'iv' else 'descent_validators'
            if cfg[a] is None:
                return
            kw = {} if op['pos'] is None else {'position': op['pos']}
            if o == 'iv':
                fn = lambda: cls.including_validators(*vs, **kw)
            else:
                fn = lambda: cls.including_descent_validators(*vs, **kw)
            l = list(cfg[a])
            pos = -1 if op['pos'] is None else op['pos']
            if pos < 0:
                pos = len(l) + 1 + pos
                if pos < 0:
                    return
            l[pos:pos] = [id(x) for x in vs]
            want[a] = l
        elif o == 'dvb':
            if cfg['descent_validators'] is None:
                return
            fn = lambda: cls.descent_validated_by(*vs)
            want['descent_validators'] = [id(x) for x in vs]
        elif o == 'wp':
            p = {u'p%d' % (u % 4): u}
            late.append(p)
            if u % 2:
                fn = lambda: cls.with_properties(p)
            else:
                fn = lambda: cls.with_properties(p.items(), q=u)
                want['properties'] = dict(cfg['properties'], q=u)
            want['properties'] = dict(want['properties'], **{'p%d' % (u % 4):
                                                             u})
        elif o == 'of':
            if k in ('Dict', 'SparseDict'):
                fs = [fl.String.named(u'x%d' % u), fl.Integer.named(u'y')]
                fn = lambda: cls.of(*fs)
                want['field_schema'] = [id(x) for x in fs]
                c.pool.append([fs[0], 'String', look(fs[0]), None])
            elif k in ('List', 'Array', 'MultiValue', 'JoinedString'):
                m = fl.Integer.named(u'm%d' % u)
                fn = lambda: cls.of(m)
                want['member_schema'] = id(m)
                c.pool.append([m, 'Integer', look(m), None])
            else:
                return
        elif o == 'valued':
            if k != 'Enum':
                return
            fn = lambda: cls.valued(u'e%d' % u, u'f')
            want['valid_values'] = [u'e%d' % u, u'f']
        elif o == 'to':
            if k != 'Ref':
                return
            fn = lambda: cls.to(u'.t%d.x' % u)
            want.pop('target_path')
        elif o == 'label':
            fn = lambda: cls.using(label=u'L%d' % u)
            want['label'] = repr(u'L%d' % u)
        elif o == 'sub':
            if k == 'Form':
                return self.subform(c, i, op, cls, want)
            fn = lambda: type('Sub', (cls,), {'optional': True})
            want['optional'] = 'True'
        elif o in ('ctor', 'ctorv', 'ctorp', 'element'):
            return self.element(c, i, op, cls, cfg, vs)
        elif o == 'setprop':
            # in place, not a derivation: only on a class nothing derives
            # from yet, made by this task
            if owner != (i, 'leaf') and not single:
                return
            if not single:
                return
            x = c.els[op['w2'] % len(c.els)] if c.els else None
            if x is None:
                return
            r = sim.op('setprop', None, lambda: x[0].properties.update(
                {u'own%d' % u: u}))
            x[2] = dict(x[2], properties=dict(
                x[0].properties.items()))
            exp = dict(x[1]['properties'])
            self.verify(c)
            return
        elif o == 'bad':
            self.bad(c, op, cls)
            return self.verify(c) if single else None
        else:
            raise KeyError(o)
        if o in ('of', 'using', 'vb', 'named', 'wp', 'valued', 'to',
                 'label', 'usingv', 'usingp', 'iv', 'div', 'dvb'):
            pass
        r = sim.op(o, f, fn)
        # the caller goes on to use its own containers
        for l in late:
            if isinstance(l, list):
                l.append(_v3)
                l.insert(0, _v2)
            else:
                l[u'late'] = 1
        if r[0] == 'exc':
            if not sim.fault_hit:
                sim.fail('error', '%s of a %s raised %r' % (o, k, r[1]))
        elif r[0] == 'ok':
            new = r[1]
            if not issubclass(new, cls) or [
                    p for p in c.pool if p[0] is new]:
                sim.fail('not-new', '%s returned %r for %r' % (o, new, cls))
            self.expect(c, new, want, '%s of a %s' % (o, k))
            c.pool.append([new, k, look(new), (i, 'leaf')])
            sim.probe('derived')
            if op.get('again') and not late:
                # the same call once more: another class, not the same one
                r = sim.op(o, None, fn)
                if r[0] == 'ok':
                    if [p for p in c.pool if p[0] is r[1]]:
                        sim.fail('not-new', '%s twice returned %r twice' % (
                            o, new))
                    self.expect(c, r[1], want, '%s of a %s again' % (o, k))
                    c.pool.append([r[1], k, look(r[1]), (i, 'leaf')])
        if single:
            self.verify(c)

    def expect(self, c, new, want, what):
        got = look(new)
        for a in want:
            if got[a] != want[a]:
                c.sim.fail('derived', '%s: %s is %r, expected %r' % (
                    what, a, got[a], want[a]))

    def subform(self, c, i, op, cls, want):
        fl, u = c.W.fl, op['u']
        other = [p for p in c.pool if p[1] == 'Form']
        o2 = other[op['w2'] % len(other)][0]
        x = fl.String.using(default=u)
        y = fl.Integer.named(u'y%d' % u)
        members = {'a': x, 'y%d' % u: y}
        if u % 3 == 0:
            members = {'extra': x}
        bases = (cls,)
        if u % 2 and o2 is not cls and not issubclass(o2, cls) \
                and not issubclass(cls, o2):
            bases = (cls, o2)
        given = dict(members)
        r = c.sim.op('subform', op.get('f'), lambda: type(
            'Sub', bases, members))
        if r[0] != 'ok':
            if r[0] == 'exc' and not c.sim.fault_hit:
                c.sim.fail('error', 'subclassing a Form raised %r' % r[1])
            return self.verify(c)
        new = r[1]
        fields = dict([(s.name, s) for s in new.field_schema])
        names = {}
        for b in reversed(bases):
            for s in b.field_schema:
                names[s.name] = s
        for n, s in given.items():
            names[unicode(n)] = s
        if set(fields) != set(names):
            c.sim.fail('derived', 'Form fields %r, expected %r' % (
                sorted(fields), sorted(names)))
        for n in names:
            s = names[n]
            if s.name == n and fields[n] is not s or \
                    not issubclass(fields[n], s):
                c.sim.fail('derived', 'Form field %r is not the declared '
                           'one' % n)
        if x.name is not None or y.name != u'y%d' % u:
            c.sim.fail('base', 'declaring a field renamed its class')
        c.pool.append([new, 'Form', look(new), (i, 'leaf')])
        c.pool.append([x, 'String', look(x), None])
        c.sim.probe('derived')
        if len(c.plan['tasks']) == 1:
            self.verify(c)

    def element(self, c, i, op, cls, cfg, vs):
        u, o = op['u'], op['o']
        late = []
        over = {}
        if o == 'ctor':
            over = {'optional': bool(u % 2), 'name': u'c%d' % u,
                    'default': u}
            fn = lambda: cls(**over)
        elif o == 'ctorv':
            l = list(vs)
            late.append(l)
            fn = lambda: cls(validators=l)
            over = {'validators': list(vs)}
        elif o == 'ctorp':
            fn = lambda: cls(properties={u'cp': u})
            over = {'properties': {u'cp': u}}
        else:
            fn = lambda: cls()
        r = c.sim.op(o, op.get('f'), fn)
        for l in late:
            l.append(_v3)
        if r[0] == 'exc' and not c.sim.fault_hit:
            c.sim.fail('error', '%s raised %r' % (o, r[1]))
        if r[0] == 'ok':
            c.els.append([r[1], cfg, over])
        if len(c.plan['tasks']) == 1:
            self.verify(c)

    def bad(self, c, op, cls):
        """Refused derivations change nothing."""
        tries = [lambda: cls.using(nonsense=1),
                 lambda: cls.using(optional=True, nonsense=1),
                 lambda: cls.validated_by(_v1, int),
                 lambda: cls.including_validators(_v1, nonsense=2),
                 lambda: cls(nonsense=1)]
        r = c.sim.op('bad', None, tries[op['u'] % len(tries)])
        if r[0] != 'exc' or not isinstance(r[1], TypeError):
            c.sim.fail('accepted', 'a bad derivation gave %r' % (r,))

    def verify(self, c):
        for cls, k, cfg, owner in c.pool:
            got = look(cls)
            if got != cfg:
                c.sim.fail('base', 'a %s class changed: %s' % (
                    k, pc.first_diff(got, cfg)))
        for cls, cfg in c.roots:
            if look(cls) != cfg:
                c.sim.fail('base', '%s itself changed: %s' % (
                    cls.__name__, pc.first_diff(look(cls), cfg)))
        for e, cfg, over in c.els:
            for a in ('name', 'optional', 'default'):
                w = repr(over[a]) if a in over else cfg[a]
                if repr(getattr(e, a)) != w:
                    c.sim.fail('element', 'element %s is %r, was %s' % (
                        a, getattr(e, a), w))
            w = [id(x) for x in over['validators']] \
                if 'validators' in over else cfg['validators']
            if [id(x) for x in e.validators] != w:
                c.sim.fail('element', 'element validators changed')
            w = over.get('properties', cfg['properties'])
            if dict(e.properties.items()) != w:
                c.sim.fail('element', 'element properties %r, expected %r' %
                           (dict(e.properties.items()), w))

    def finish(self, c):
        self.verify(c)


# -- S03 --------------------------------------------------------------------

@register
class S03(Prop):
    ID = 'S03'
    QUICK = 110
    THOROUGH = 3000
    RULE = ('1-4 tasks make the first elements of freshly declared compound '
            'classes (direct, nested in containers, derived, with keyword '
            'overrides) whose class initialisation yields, nests and '
            'sometimes fails; harness counters check that it completed '
            'exactly once before any element; non-trivial: a preemption '
            'inside the library or a fired fault.')
    STUB = 'the compound classes (harness code over the real Compound)'

    def gen(self, rng):
        nt = ntasks(rng, 0.15, 4)
        fault = gen.chance(rng, 0.5)
        ncls = gen.some(rng, 1, 3)
        classes = []
        for n in range(ncls):
            classes.append({'k': gen.pick(rng, ['Point', 'Point', 'YMD',
                                                'YMD1', 'Nest', 'Sub']),
                            'steps': gen.some(rng, 1, 3)})
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 1, 5)):
                op = {'o': gen.pick(rng, ['new', 'new', 'new', 'value',
                                          'dict', 'list', 'derived',
                                          'using', 'over', 'over2', 'flat',
                                          'default', 'shared']),
                      'c': rng.randrange(ncls)}
                if fault and gen.chance(rng, 0.4):
                    op['f'] = gen.cb_fault(rng, 4) if gen.chance(rng, 0.6) \
                        else gen.pt_fault(rng, 60)
                ops.append(op)
            tasks.append(ops)
        return {'tasks': tasks, 'classes': classes,
                'sched': gen.sched(rng, nt)}

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        fl = W.fl
        c.done = {}            # class -> completed initialisations
        c.faults = {}          # class -> faulted operations
        c.classes = []
        c.shared = []
        prop = self

        def make(d, n):
            k = d['k']
            if k in ('YMD', 'YMD1'):
                base = fl.DateYYYYMMDD
                if k == 'YMD1':
                    base = type('D1', (base,), {'field_schema': [
                        fl.Integer.named(u'yy').using(format=u'%04i')]})
                class D(base):
                    def __init__(self, *a, **kw):
                        prop.exists(c, type(self))
                        base.__init__(self, *a, **kw)
                D.kind_ = k
                return D.named(u'd%d' % n) if n % 2 else D
            inner = None
            if k == 'Nest' and c.classes:
                inner = c.classes[-1]

            def compose(self):
                v = tuple([self[x].value for x in (u'x', u'y', u'z')])
                return unicode(v), v

            def explode(self, value):
                for n_, v in zip((u'x', u'y', u'z'), value):
                    self[n_].set(v)

            def init(cls):
                fields = []
                for s in (u'x', u'y', u'z'):
                    sim.cb('init')
                    fields.append(fl.Integer.named(s))
                    if d['steps'] > 1:
                        # published in steps: nobody may look yet
                        cls.field_schema = list(fields)
                if inner is not None:
                    inner()
                cls.field_schema = fields
                sim.cb('init')
                c.done[cls] = c.done.get(cls, 0) + 1

            def ctor(self, *a, **kw):
                prop.exists(c, type(self))
                fl.Compound.__init__(self, *a, **kw)
            if k == 'Sub':
                init = classmethod(init)
            P = type(fl.Compound)('P%d' % n, (fl.Compound,), {
                '__compound_init__': init, 'compose': compose,
                'explode': explode, '__init__': ctor,
                'kind_': 'P'})
            if n % 2:
                P = P.named(u'p%d' % n)
            return P
        for n, d in enumerate(plan['classes']):
            c.classes.append(make(d, n))
        c.dicts = [fl.Dict.of(x.named(u'k'), fl.String.named(u's'))
                   for x in c.classes]
        c.lists = [fl.List.of(x.named(u'k')) for x in c.classes]
        c.looks = [look(x) for x in c.classes]
        return c

    def fields(self, cls):
        if cls.kind_ == 'P':
            return [u'x', u'y', u'z']
        if cls.kind_ == 'YMD1':
            return [u'day', u'month', u'yy']
        return [u'day', u'month', u'year']

    def exists(self, c, cls):
        if cls.kind_ == 'P' and not c.done.get(cls):
            c.sim.fail('unprepared', 'an element of a %s is being made before '
                       'its class initialisation completed' % cls.__name__)
        names = sorted([s.name for s in cls.field_schema])
        if names != self.fields(cls):
            c.sim.fail('unprepared', 'an element is being made of a class '
                       'with fields %r' % (names,))

    def do(self, c, i, op):
        fl, sim = c.W.fl, c.sim
        cls = c.classes[op['c']]
        o = op['o']
        val = (1, 2, 3) if cls.kind_ == 'P' else datetime.date(2001, 2, 3)
        ele = None
        if o == 'new':
            fn = lambda: cls()
        elif o == 'value':
            fn = lambda: cls(val)
        elif o == 'dict':
            fn = lambda: c.dicts[op['c']]()[u'k']
        elif o == 'list':
            fn = lambda: c.lists[op['c']]([val])[0]
        elif o == 'derived':
            fn = lambda: cls.named(u'nn')()
        elif o == 'using':
            fn = lambda: cls.using(optional=True)(val)
        elif o == 'over':
            fn = lambda: cls(name=u'ov', optional=True)
        elif o == 'over2':
            fn = lambda: cls(val, optional=True)
        elif o == 'flat':
            fn = lambda: cls.named(u'fl').from_flat(
                [(u'fl_x', u'1'), (u'fl_year', u'2001')])
        elif o == 'default':
            fn = lambda: cls.from_defaults()
        else:
            # one derived class used by several tasks
            fn = lambda: self.shared_class(c, op['c'])()
        r = sim.op(o, op.get('f'), fn)
        if sim.fault_hit:
            c.faults[op['c']] = c.faults.get(op['c'], 0) + 1
            if r[0] == 'ok':
                sim.probe('fault-swallowed')
            if r[0] == 'exc' and not isinstance(r[1], TypeError):
                sim.fail('error', '%s: a fault came out as %r' % (o, r[1]))
            return
        if r[0] != 'ok':
            sim.fail('error', '%s of a %s raised %r' % (o, cls.kind_, r[1]))
        e = r[1]
        t = type(e)
        if sorted(e.keys()) != self.fields(cls):
            sim.fail('fields', '%s: element has fields %r' % (
                o, sorted(e.keys())))
        if cls.kind_ == 'P' and not c.done.get(t):
            sim.fail('unprepared', '%s: its class was never prepared' % o)
        if o in ('value', 'list', 'using', 'over2') and e.value != val:
            sim.fail('value', '%s: value is %r' % (o, e.value))
        if o in ('over', 'over2', 'using') and not e.optional:
            sim.fail('override', '%s: the override is lost' % o)
        if o in ('over', 'over2') and (t is cls or not issubclass(t, cls)):
            sim.fail('override', '%s: the element is a plain %r' % (o, t))
        if o in ('new', 'value') and t is not cls:
            sim.fail('class', '%s: another class %r' % (o, t))
        for n in e.keys():
            if e[n].parent is not e:
                sim.fail('fields', 'a field has another parent')
        if cls.kind_ != 'P' and o in ('over', 'over2', 'using') and \
                [n for n in e.keys() if not e[n].optional and n != u'yy']:
            sim.fail('override', '%s: the fields are not prepared for the '
                     'override' % o)

    def shared_class(self, c, n):
        key = ('shared', n)
        d = c.__dict__.setdefault('sh', {})
        if key not in d:
            d[key] = c.classes[n].using(optional=True)
        return d[key]

    def finish(self, c):
        if not c.faults:
            for cls, k in c.done.items():
                if k != 1:
                    c.sim.fail('twice', 'class initialisation completed %d '
                               'times' % k)
        else:
            n = sum(c.faults.values())
            for cls, k in c.done.items():
                if k > 1 + n:
                    c.sim.fail('twice', 'class initialisation completed %d '
                               'times with %d faults' % (k, n))
        # what overrides and derivations left of the originals
        for cls, l in zip(c.classes, c.looks):
            now = look(cls)
            for a in ('name', 'optional', 'validators', 'properties',
                      'default'):
                if now[a] != l[a]:
                    c.sim.fail('base', '%s of the class changed to %s' % (
                        a, now[a]))
        # and everything still works once faults stop
        for n, cls in enumerate(c.classes):
            for e in (cls(), c.dicts[n]()[u'k'], cls(optional=True)):
                if sorted(e.keys()) != self.fields(cls):
                    c.sim.fail('fields', 'later element has fields %r' %
                               sorted(e.keys()))
        if not c.faults:
            for cls, k in c.done.items():
                if k != 1:
                    c.sim.fail('twice', 'class initialisation completed %d '
                               'times' % k)
