# -*- coding: utf-8 -*-
"""T08: exchanging values with objects."""
import gen
import history as hi
import model
import p_common as pc
from base import register
from history import Hist, Source, Skip, ANY
from model import N, ModelError, dv
from p_tree import TreeProp

ASCII = [u'a', u'b', u'c', u'd', u'x', u'y', u'ab', u'n1']


class Thing(object):
    """An object whose attributes call back and are counted."""

    def __init__(self, vals, sim):
        d = self.__dict__
        d['_vals'] = vals
        d['_sim'] = sim
        d['_read'] = []
        d['_wrote'] = []

    def __getattr__(self, name):
        self._read.append(name)
        self._sim.cb('getter')
        if name not in self._vals:
            raise AttributeError(name)
        return self._vals[name]

    def __setattr__(self, name, value):
        self._sim.cb('setter')
        self._wrote.append(name)
        self._vals[name] = value
        self._sim.cb('set')


def selected(names, op):
    """The rule of set_by_object: which attributes are read."""
    sel = set(names)
    if op['include']:
        sel &= set(op['include'])
    if op['omit']:
        sel -= set(op['omit'])
    sel |= set([k for k, v in op['rename'] or () if v in names])
    return sel


def sliced(pairs, op, key=None):
    """The rule of slice: [(key, value)]."""
    if op['include'] and op['omit']:
        raise ModelError('TypeError')
    ren = dict([tuple(p) for p in op['rename'] or ()])
    out = []
    for k, v in pairs:
        if key is not None:
            k = key(k)
        if k in ren:
            out.append((ren[k], v))
        elif op['include']:
            if k in op['include']:
                out.append((k, v))
        elif not (op['omit'] and k in op['omit']):
            out.append((k, v))
    names = [k for k, v in out]
    if len(set(names)) != len(names):
        raise Skip()         # two of one name: either may win
    return out


class ObjHist(Hist):

    def args(self, op):
        sim = self.sim
        kw = {}
        for k in ('include', 'omit'):
            x = op[k]
            if x is not None:
                kw[k] = Source(x, sim) if op['src'] == 'gen' and x else \
                    tuple(x) if op['src'] == 'tuple' else list(x)
        if op['rename'] is not None:
            r = [tuple(p) for p in op['rename']]
            kw['rename'] = dict(r) if op['src'] == 'dict' else r
        return kw

    def values(self, op):
        return dict([(k, dv(x)) for k, x in op['vals']])

    def incoming(self, op, n, fields):
        """What set() is given."""
        vals = self.values(op)
        if op['include'] and op['omit']:
            raise ModelError('TypeError')
        sel = selected(fields, op)
        ren = dict([tuple(p) for p in op['rename'] or ()])
        got = [(k, v) for k, v in vals.items() if k in sel]
        return [(k, v) for k, v in sliced(got, op) if k in fields]

    def assign(self, n, ps):
        """set() with pairs in an order of its own."""
        names = []
        for k, v in ps:
            s = [x for x in n.child_specs() if x['n'] == k][0]
            try:
                N(s, n).set(v)
            except ModelError, x:
                names.append(x.args[0])
        if n.spec.get('policy') == 'strict' and \
                len(ps) != len(n.child_specs()):
            names.append('TypeError')
        if names:
            # which one comes first depends on the order of a dict
            raise ModelError('TypeError|KeyError|ValueError')
        n.set(ps)
        return ANY

    def reads(self, obj, op, fields, what):
        want = set()
        if not (op['include'] and op['omit']):
            want = selected(fields, op)
        if set(obj._read) != want:
            self.sim.fail('read', '%s read the attributes %r, not %r' % (
                what, sorted(set(obj._read)), sorted(want)))

    def op_byobj(self, op, e, n):
        fields = list(n.fields)
        self.incoming_or_skip(op, n, fields)
        obj = self.obj = Thing(self.values(op), self.sim)

        def fn():
            if e.set_by_object(obj, **self.args(op)) is not None:
                self.sim.fail('result', 'set_by_object returned something')

        def mod():
            self.reads(obj, op, fields, 'set_by_object %r' % (op,))
            return self.assign(n, self.incoming(op, n, fields))
        return fn, mod

    def incoming_or_skip(self, op, n, fields):
        try:
            self.incoming(op, n, fields)
        except ModelError:
            pass

    def op_fromobj(self, op, e, n):
        m = N(n.spec)
        fields = list(m.fields)
        self.incoming_or_skip(op, m, fields)
        obj = self.obj = Thing(self.values(op), self.sim)
        cls = self.classes.get(id(n.spec), type(e))
        made = []

        def fn():
            kw = self.args(op)
            if op['label']:
                kw['label'] = u'L'
            made.append(cls.from_object(obj, **kw))

        def mod():
            self.reads(obj, op, fields, 'from_object %r' % (op,))
            self.assign(m, self.incoming(op, m, fields))
            x = made[0]
            d = model.diff(x, m)
            if d:
                self.sim.fail('state', 'from_object %r: %s' % (op, d))
            if type(x) is not cls and not op['label'] or \
                    op['label'] and x.label != u'L':
                self.sim.fail('made', 'from_object made a %r' % type(x))
            return ANY
        return fn, mod

    def key(self, op):
        sim, k = self.sim, op['key']
        if k is None:
            return None
        if k == 'str':
            return str

        def key(x):
            sim.cb('key')
            return str('p_' + x)
        return key

    def plainkey(self, op):
        return {None: None, 'str': str,
                'pre': lambda x: str('p_' + x)}[op['key']]

    def op_slice(self, op, e, n):
        got = []
        try:
            self.out(op, n)
        except ModelError:
            pass

        def fn():
            got.append(e.slice(key=self.key(op), **self.args(op)))

        def mod():
            want = dict(self.out(op, n))
            g = got[0]
            if type(g) is not dict or set(g) != set(want) or [
                    k for k in g if not model.same_value(g[k], want[k])] or \
                    op['key'] and not op['rename'] and [
                        k for k in g if type(k) is not str]:
                self.sim.fail('slice', 'slice %r gave %r, not %r' % (
                    op, g, want))
            for v in g.values():
                # it is the caller's
                if isinstance(v, list):
                    v.append(1)
                elif isinstance(v, dict):
                    v.clear()
            g.clear()
            return ANY
        return fn, mod

    def out(self, op, n):
        return sliced([(k, c.value()) for k, c in n.fields.items()], op,
                      self.plainkey(op))

    def op_upobj(self, op, e, n):
        vals = self.values(op)
        obj = self.obj = Thing(dict(vals), self.sim)
        self.objs = (obj, vals)
        try:
            self.out(op, n)
        except ModelError:
            pass

        def fn():
            kw = self.args(op)
            if op['key'] != 'str':
                kw['key'] = self.key(op)
            if e.update_object(obj, **kw) is not None:
                self.sim.fail('result', 'update_object returned something')

        def mod():
            want = dict(self.out(op, n))
            if sorted(obj._wrote) != sorted(want):
                self.sim.fail('wrote', 'update_object %r wrote %r, not %r' % (
                    op, sorted(obj._wrote), sorted(want)))
            if obj._read:
                self.sim.fail('read', 'update_object %r read %r' % (
                    op, obj._read))
            vals.update(want)
            self.same_vals(obj, vals, 'update_object %r' % (op,))
            return ANY
        return fn, mod

    def same_vals(self, obj, vals, what):
        now = obj._vals
        if set(now) != set(vals) or [k for k in now if not model.same_value(
                now[k], vals[k])]:
            self.sim.fail('wrote', '%s left the object with %r, not %r' % (
                what, now, vals))

    def failed(self, op, e, snap, what):
        sim, o = self.sim, op['o']
        hit = sim.fault_hit
        site = sim.cur.fault_site if hit else None
        if o not in ('byobj', 'fromobj', 'slice', 'upobj'):
            return Hist.failed(self, op, e, snap, what)
        before = dict(snap[1])
        Hist.failed(self, op, e, snap, what)
        n = [y for x, y in hi.pairs(self.e, self.node) if x is e][0]
        # whatever was not selected is as it was
        whole = pc.canon([self.node.value(), hi.fullu(self.node)])
        if o != 'byobj' or site in ('getter', 'source') or (
                op['include'] and op['omit']):
            d = pc.first_diff(snap[0], whole)
            if d:
                sim.fail('changed', 'failed %s changed the element: %s' % (
                    what, d))
        if hit:
            sim.probe('failed-' + o)
        if o == 'upobj':
            obj, vals = self.objs
            try:
                want = dict(self.out(op, n))
            except ModelError:
                want = {}
            if [k for k in obj._wrote if k not in want]:
                sim.fail('wrote', 'failed %s wrote %r' % (what, obj._wrote))
            for k in obj._wrote:
                vals[k] = want[k]
            self.same_vals(obj, vals, 'failed ' + what)
        if hit and self.apply(dict(op), None):
            sim.probe('repeated')


@register
class T08(TreeProp):
    ID = 'T08'
    HIST = ObjHist
    OPS = (5, 12)
    QUICK = 64
    CHUNK = 40
    RULE = ('Random mappings and objects; set_by_object, from_object, '
            'update_object and slice with include, omit, rename and key, '
            'attribute getters, setters, selections and conversions failing '
            'at a random access, then repeated; mixed with other changes; 1 '
            'to 3 tasks on one schema; non-trivial: a call failed and was '
            'repeated.')

    def nontrivial(self, plan, sim):
        return sim.probes.get('repeated', 0) > 0

    def schema(self, rng):
        s = gen.top_schema(rng, gen.pick(rng, [1, 2, 2]), width=4,
                           root=gen.pick(rng, ['Dict', 'Form', 'Dict', 'Form',
                                               'SparseDict']))
        if gen.chance(rng, 0.15):
            s['of'].append(gen.top_schema(rng, 1, root='Dict'))
        for t in gen.walk(s):
            if len(t.get('of') or ()) > 1 or t['k'] in model.MAPS:
                names = list(ASCII)
                rng.shuffle(names)
                for x, nm in zip(t['of'], names):
                    x['n'] = nm
        return s

    def op_for(self, rng, specs):
        if gen.chance(rng, 0.2):
            return hi.any_op(rng, specs)
        maps = [i for i, s in enumerate(specs) if s['k'] in model.MAPS]
        i = 0 if gen.chance(rng, 0.8) else gen.pick(rng, maps)
        s = specs[i]
        names = [c['n'] for c in s['of']]
        other = [u'q1', u'q2', u'zz']
        some = lambda p, k: [n for n in names + other + (
            [u'p_' + n for n in names] if k else []) if gen.chance(rng, p)]
        o = gen.pick(rng, ['byobj', 'byobj', 'fromobj', 'upobj', 'slice'])
        key = None
        if o in ('upobj', 'slice'):
            key = gen.pick(rng, ['str', 'str', 'pre', None])
        r = rng.random()
        op = {'o': o, 'include': None, 'omit': None, 'rename': None,
              'key': key, 'src': gen.pick(rng, ['list', 'tuple', 'gen',
                                                'dict']),
              's': i, 'w': rng.randrange(100)}
        if r < 0.3:
            op['include'] = some(0.5, key == 'pre')
        elif r < 0.55:
            op['omit'] = some(0.35, key == 'pre')
        elif r < 0.6:
            op['include'] = some(0.5, False)
            op['omit'] = some(0.5, False)
        vals, ren = [], []
        if gen.chance(rng, 0.5):
            for q in range(gen.some(rng, 1, 3)):
                a = gen.pick(rng, names + other)
                if key == 'pre' and gen.chance(rng, 0.6):
                    a = u'p_' + a
                b = gen.pick(rng, names + names + other + [u'r1', u'r2'])
                if a not in [x for x, y in ren]:
                    ren.append([a, b])
            op['rename'] = ren
        for c in s['of']:
            if gen.chance(rng, 0.75):
                vals.append([c['n'], gen.value_for(rng, c, 0.85, 1)])
        by = dict([(c['n'], c) for c in s['of']])
        for a, b in ren:
            if a not in by and gen.chance(rng, 0.8):
                vals.append([a, gen.value_for(rng, by[b], 0.85, 1)
                             if b in by else u'1'])
        if gen.chance(rng, 0.3):
            vals.append([u'other', u'x'])
        have = {}
        for k, v in vals:
            have[k] = v
        op['vals'] = sorted(have.items())
        op['label'] = o == 'fromobj' and gen.chance(rng, 0.3)
        return op
