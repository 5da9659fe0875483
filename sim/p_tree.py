# -*- coding: utf-8 -*-
"""Histories of changes to element trees: T01-T08, D01."""
import core
import gen
import history as hi
import model
import p_common as pc
from base import Prop, Ctx, register, ntasks
from history import Hist, Source, DictSource
from model import N, ModelError, dv


class TreeCtx(Ctx):
    """One schema, a class for it, and a history per task."""

    def __init__(self, P, plan, sim, W, extra=None):
        Ctx.__init__(self, plan, sim, W)
        self.spec = hi.normalise(plan['schema'])
        self.specs = hi.specs_of(self.spec)
        self.classes = {}
        self.cls = gen.build(self.spec, W, self.classes,
                             hi.hooked(lambda: sim, extra))
        self.hist = {}


def hooks(rng, spec, p=0.3):
    for s in gen.walk(spec):
        if s['k'] in model.SCALARS and gen.chance(rng, p):
            s['hook'] = True
    return spec


class TreeProp(Prop):
    """Tasks that each apply a history of operations to a tree of their own,
    of a schema they share."""
    CHUNK = 30
    QUICK = 64
    THOROUGH = 3000
    OPS = (6, 16)
    FAULTS = 0.22
    HIST = Hist
    EXTRA = None

    def nontrivial(self, plan, sim):
        return sim.probes.get('changes', 0) >= 4

    def schema(self, rng):
        raise NotImplementedError

    def op_for(self, rng, specs):
        return hi.any_op(rng, specs)

    def gen(self, rng):
        n = ntasks(rng, 0.5, 3)
        spec = hooks(rng, self.schema(rng))
        specs = hi.specs_of(hi.normalise(spec))
        tasks = []
        for i in range(n):
            ops = []
            for j in range(gen.some(rng, *self.OPS)):
                op = self.op_for(rng, specs)
                if gen.chance(rng, self.FAULTS):
                    op['f'] = gen.cb_fault(rng, gen.pick(rng, [1, 3, 8]))
                ops.append(op)
            tasks.append(ops)
        return {'schema': spec, 'tasks': tasks,
                'start': [gen.value_for(rng, spec, 0.9) for i in range(n)],
                'sched': gen.sched(rng, n)}

    def setup(self, plan, sim, W):
        return TreeCtx(self, plan, sim, W, self.EXTRA)

    def history(self, c, i):
        h = self.HIST(c, c.cls, c.spec, c.classes, c.specs)
        try:
            x = dv(c.plan['start'][i])
            n = N(c.spec)
            n.set(x)
        except ModelError:
            return h
        h.e.set(x)
        h.node = n
        h.check('the first set')
        return h

    def do(self, c, i, op):
        if i not in c.hist:
            c.hist[i] = self.history(c, i)
        h = c.hist[i]
        if h.apply(op, op.get('f')):
            c.sim.probe('changes')

    def finish(self, c):
        # nobody changed anybody else's tree
        for i in sorted(c.hist):
            c.hist[i].check('the end')


# -- T01 --------------------------------------------------------------------

class SeqHist(Hist):

    def extra_before(self, op, e, n):
        return None


@register
class T01(TreeProp):
    ID = 'T01'
    RULE = ('Random sequences (List, Array, MultiValue, JoinedString, alone '
            'or nested) and 6 to 16 list operations per task, with elements '
            'and plain values, failing sources, callbacks and keys; 1 to 3 '
            'tasks on sequences of one schema; non-trivial: at least 4 '
            'operations took effect or failed as they must.')

    def schema(self, rng):
        k = gen.pick(rng, ['List', 'List', 'Array', 'MultiValue',
                           'JoinedString'])
        s = gen.schema(rng, gen.pick(rng, [1, 1, 2]),
                       gen.pick(rng, [None, u's', u'tags']), (k,), True)
        if gen.chance(rng, 0.3):
            s = {'k': gen.pick(rng, ['Dict', 'Form', 'SparseDict']),
                 'n': gen.pick(rng, [None, u'f']),
                 'of': [dict(s, n=u'seq'), gen.scalar_spec(rng, u'x')]}
        return s

    def op_for(self, rng, specs):
        seqs = [i for i, s in enumerate(specs) if s['k'] in model.SEQS]
        if gen.chance(rng, 0.12):
            return hi.any_op(rng, specs)
        i = seqs[0] if gen.chance(rng, 0.6) else gen.pick(rng, seqs)
        op = hi.seq_op(rng, specs[i])
        op['s'] = i
        op['w'] = rng.randrange(100)
        return op


# -- T02 --------------------------------------------------------------------

@register
class T02(TreeProp):
    ID = 'T02'
    RULE = ('Random mappings (Dict, Form, SparseDict, all policies, nested) '
            'and 6 to 16 mapping operations per task, with failing sources '
            'and callbacks; 1 to 3 tasks on mappings of one schema; '
            'non-trivial: at least 4 operations took effect or failed as '
            'they must.')

    def schema(self, rng):
        return gen.top_schema(
            rng, gen.pick(rng, [1, 1, 2]),
            ('Dict', 'Form', 'SparseDict', 'List', 'Array', 'YMD'),
            root=gen.pick(rng, ['Dict', 'Form', 'SparseDict', 'SparseDict',
                                'SparseDict']))

    def op_for(self, rng, specs):
        maps = [i for i, s in enumerate(specs) if s['k'] in model.MAPS]
        if gen.chance(rng, 0.12):
            return hi.any_op(rng, specs)
        i = 0 if gen.chance(rng, 0.7) else gen.pick(rng, maps)
        op = hi.map_op(rng, specs[i])
        op['s'] = i
        op['w'] = rng.randrange(100)
        return op


# -- T07 --------------------------------------------------------------------

def rename(rng, spec, names, p=0.4):
    """Give fields names that need care in paths."""
    for s in gen.walk(spec):
        if s['k'] in model.MAPS and gen.chance(rng, p):
            pool = list(names)
            rng.shuffle(pool)
            for c, n in zip(s['of'], pool):
                if gen.chance(rng, 0.7) and n not in [
                        x['n'] for x in s['of']]:
                    c['n'] = n
    return spec


def escape_step(name):
    if name in (u'.', u'..'):
        return u'\\.' * len(name)
    return name.replace(u'/', u'\\/').replace(u'[', u'\\[')


ODD = [u'0', u'1', u'x y', u'a/b', u'x[0]', u'.', u'..', u'p]q', u'\xe9',
       u'a.b', u'[z]', u'a_b', u'a_', u'_b', u'$x^', u'-']
NSEPS = [u'|', u'~~', u'=>', u'\u2192']


def located(e, n):
    """Every (element, node, keys) of a tree: the keys lead to it from the
    root of the walk."""
    out, q = [], [(e, n, [])]
    while q:
        e, n, keys = q.pop(0)
        out.append((e, n, keys))
        if n.k in model.SEQS:
            for i, c in enumerate(n.kids):
                q.append((e[i], c, keys + [unicode(i)]))
        elif n.fields:
            for s in n.child_specs():
                if s['n'] in n.fields:
                    q.append((e[s['n']], n.fields[s['n']], keys + [s['n']]))
    return out


class NameHist(Hist):

    def extra_after(self, op, e, n, pre, what):
        self.names(op, what)
        if op['w'] % 5 == 0:
            self.under(op, what)
            self.names(op, what + ' and a stay under another root')

    def under(self, op, what):
        """The whole tree becomes a member of a List for a while."""
        sim, root = self.sim, self.e
        Slot = self.W.schema.Slot
        outer = self.W.fl.List.named(u'outer').of(type(root))()
        outer.append(root)
        if op['w'] % 2:
            outer.insert(0, type(root)())
        k0 = unicode(len(outer) - 1)
        for e, n, keys in located(root, self.node):
            where = 'after %s, under a new root: %r' % (what, keys)
            if e.root is not outer:
                sim.fail('root', '%s: root is %r' % (where, e.root))
            fq = u'.'.join([u'', k0] + keys)
            if e.fq_name() != fq:
                sim.fail('fq_name', '%s: fq_name is %r' % (where,
                                                           e.fq_name()))
            want = u'_'.join([u'outer', k0] + list(n.path_names()))
            if e.flattened_name() != want:
                sim.fail('flattened_name', '%s: flattened_name is %r, '
                         'expected %r' % (where, e.flattened_name(), want))
            p = u'/' + u'/'.join([k0] + [escape_step(k) for k in keys])
            if e.find(p) != [e] or e.find(p)[0] is not e or \
                    outer.find(p)[0] is not e:
                sim.fail('find', '%s: find(%r) is %r' % (where, p,
                                                         e.find(p)))
        got = [x for x in root.path if not isinstance(x, Slot)]
        if len(got) != 2 or got[0] is not outer:
            sim.fail('path', 'after %s, under a new root: path is %r' % (
                what, got))
        outer.pop()
        sim.probe('adopted')

    def failed(self, op, e, snap, what):
        Hist.failed(self, op, e, snap, what)
        self.names(op, 'failed ' + what)

    def names(self, op, what):
        sim, root = self.sim, self.e
        Slot = self.W.schema.Slot
        all_ = located(root, self.node)
        rng = core.mkrng('names', op['w'], len(all_))
        sep = gen.pick(rng, NSEPS)
        chain = {id(root): [root]}
        byid = dict([(id(e), e) for e, n, k in all_])
        if len(byid) != len(all_):
            sim.fail('shared', 'after %s: one element is in two places' %
                     what)
        for e, n, keys in all_:
            where = 'after %s: %r' % (what, keys)
            fq = e.fq_name(sep)
            if fq != (sep + sep.join(keys)):
                sim.fail('fq_name', '%s: fq_name(%r) is %r' % (
                    where, sep, fq))
            if e.root is not root:
                sim.fail('root', '%s: root is %r' % (where, e.root))
            # the chain of ancestors
            if keys:
                up = [x for x, m, k in all_ if k == keys[:-1]]
                chain[id(e)] = chain[id(up[0])] + [e]
            want = chain[id(e)]
            got = [x for x in e.path if not isinstance(x, Slot)]
            if len(got) != len(want) or \
                    [1 for a, b in zip(got, want) if a is not b]:
                sim.fail('path', '%s: path is %r' % (where, got))
            got = [x for x in e.parents if not isinstance(x, Slot)]
            if len(got) != len(want) - 1 or \
                    [1 for a, b in zip(reversed(got), want) if a is not b]:
                sim.fail('parents', '%s: parents are %r' % (where, got))
            for s in (u'_', sep):
                if e.flattened_name(s) != n.flat_name(s):
                    sim.fail('flattened_name', '%s: flattened_name(%r) is '
                             '%r, expected %r' % (where, s,
                                                  e.flattened_name(s),
                                                  n.flat_name(s)))
            # from anywhere
            y = all_[rng.randrange(len(all_))]
            for at in (root, y[0], e):
                try:
                    x = at.el(fq, sep)
                except KeyError, err:
                    sim.fail('el', '%s: el(%r) from %r fails: %s' % (
                        where, fq, y[2], err))
                if x is not e:
                    sim.fail('el', '%s: el(%r) from %r is %r' % (
                        where, fq, y[2], x))
            if keys and not [k for k in keys if u'.' in k]:
                if y[0].el(e.fq_name()) is not e or \
                        root.el(iter(keys)) is not e:
                    sim.fail('el', '%s: el(%r) is another element' % (
                        where, e.fq_name()))
            p = u'/' + u'/'.join([escape_step(k) for k in keys])
            got = y[0].find(p)
            if len(got) != 1 or got[0] is not e:
                sim.fail('find', '%s: find(%r) is %r' % (where, p, got))
            if y[0].find(p, single=True) is not e:
                sim.fail('find', '%s: find(%r, single) is another element' %
                         (where, p))
        # breadth first, once
        for e, n, keys in [all_[0], all_[rng.randrange(len(all_))]]:
            want, q = [], list(e.children)
            while q:
                x = q.pop(0)
                want.append(x)
                q.extend(x.children)
            got = list(e.all_children)
            if len(got) != len(want) or \
                    [1 for a, b in zip(got, want) if a is not b]:
                sim.fail('all_children', 'after %s: all_children of %r are '
                         '%r' % (what, keys, got))
            below = sorted([id(x) for x, m, k in all_
                            if len(k) > len(keys) and k[:len(keys)] == keys])
            if sorted([id(x) for x in got]) != below:
                sim.fail('all_children', 'after %s: all_children of %r are '
                         '%r' % (what, keys, got))
            for s in (u'_', sep):
                a, b = model.canon(e.flatten(s)), model.canon(n.flatten(s))
                if a != b:
                    sim.fail('flatten', 'after %s: flatten(%r) of %r is %r, '
                             'expected %r' % (what, s, keys, a, b))
            seen = []
            names = sorted([k for k, v in e.flatten(
                sep, value=lambda x: seen.append(x))])
            flats = [m.flat_name(sep) for x, m, k in all_
                     if id(x) in [id(z) for z in seen]]
            if names != sorted(flats) or len(seen) != len(names) or \
                    len(set(map(id, seen))) != len(seen):
                sim.fail('flatten', 'after %s: flatten of %r called back '
                         'for %r, named %r' % (what, keys, seen, names))
        sim.probe('named', len(all_))


@register
class T07(TreeProp):
    ID = 'T07'
    HIST = NameHist
    QUICK = 48
    CHUNK = 20
    CAP = 3000000
    OPS = (5, 12)
    RULE = ('Random nested schemas with names that need care in paths, 5 to '
            '12 mutations per task of any kind anywhere, some failing; after '
            'each, every element of the tree is looked up by every name; '
            'non-trivial: at least 4 mutations took effect or failed as they '
            'must.')

    def schema(self, rng):
        return rename(rng, gen.top_schema(rng, gen.pick(rng, [1, 2, 2, 3]),
                                          width=3), ODD)


# -- T06 --------------------------------------------------------------------

class CompHist(Hist):

    def fault_seen(self, op, r, what):
        # Compound.set() turns what explode() raises into False
        t = self.sim.cur
        if r[0] == 'ok' and t.fault_site in ('explode', 'half', 'exploded') \
                and t.fault_fired != 'kill':
            self.sim.probe('quashed')
            return
        Hist.fault_seen(self, op, r, what)

    def op_read(self, op, e, n):
        def fn():
            v, u = e.value, e.u
            return [model.same_value(v, n.value()), u == n.u(),
                    bool(e.is_empty) == bool(n.is_empty())]
        return fn, lambda: [True, True, True]

    def op_cflat(self, op, e, n):
        """Flat data for the whole tree, aimed at the parts."""
        if n.k == 'JoinedString':
            raise Skip()
        return (lambda: e.set_flat([tuple(p) for p in op['pairs']])), \
            lambda: n.set_flat([tuple(p) for p in op['pairs']])

    def check(self, what):
        Hist.check(self, what)
        for e, n in pairs_of(self.e, self.node):
            if n.k == 'JoinedString':
                want = n.spec.get('sepr', u',').join([c.u for c in e])
                got = (e.value, e.u)
                want = (want, want)
            elif n.k in model.COMPS:
                p = [e[s['n']].value for s in n.child_specs()]
                got = (e.value, e.u)
                want = n.compose()[::-1]
                if p != [n.fields[s['n']].v for s in n.child_specs()]:
                    self.sim.fail('parts', 'after %s: parts are %r' % (
                        what, p))
            else:
                continue
            if got != want:
                self.sim.fail('disagree', 'after %s: value and u are %r, '
                              'the children compose to %r' % (
                                  what, got, want))


def pairs_of(e, n):
    return hi.pairs(e, n)


Skip = hi.Skip


@register
class T06(TreeProp):
    ID = 'T06'
    HIST = CompHist
    QUICK = 64
    OPS = (6, 18)
    RULE = ('Dates, custom compounds and JoinedStrings alone and nested, '
            'changed as a whole, part by part, by flat data, by list '
            'operations and through their containers, with compose and '
            'explode failing; 1 to 3 tasks on elements of one schema; '
            'non-trivial: at least 4 changes took effect or failed as they '
            'must.')

    def schema(self, rng):
        kinds = ('YMD', 'YMD', 'PT', 'PT', 'JoinedString')
        r = rng.random()
        if r < 0.5:
            return gen.schema(rng, 1, gen.pick(rng, [None, u'c']), kinds,
                              True, ('names',))
        one = lambda n: gen.schema(rng, 1, n, kinds, True, ('names',))
        if r < 0.85:
            names = list(gen.NAMES)
            rng.shuffle(names)
            return {'k': gen.pick(rng, ['Dict', 'Form', 'SparseDict']),
                    'n': gen.pick(rng, [None, u'f']),
                    'of': [one(n) for n in names[:gen.some(rng, 1, 3)]]}
        return {'k': 'List', 'n': gen.pick(rng, [None, u'l']),
                'of': [one(gen.pick(rng, [None, u'm']))]}

    def op_for(self, rng, specs):
        cs = [i for i, s in enumerate(specs)
              if s['k'] in model.COMPS or s['k'] == 'JoinedString']
        if gen.chance(rng, 0.25):
            return hi.any_op(rng, specs)
        i = gen.pick(rng, cs)
        s = specs[i]
        r = rng.random()
        if r < 0.15:
            op = {'o': 'read'}
        elif s['k'] == 'JoinedString':
            if r < 0.4:
                op = {'o': 'set', 'x': gen.value_for(rng, s, 0.75)}
            else:
                op = hi.seq_op(rng, s)
        elif r < 0.4:
            op = {'o': 'set', 'x': gen.value_for(rng, s, 0.75)}
        elif r < 0.5:
            op = {'o': 'assign', 'x': gen.value_for(rng, s, 0.75),
                  'attr': gen.pick(rng, ['value', 'u'])}
        elif r < 0.6:
            ps = []
            pre = (s['n'] + u'_') if s['n'] is not None else u''
            for c in N(s).child_specs():
                if gen.chance(rng, 0.7):
                    ps.append([pre + c['n'], gen.pick(rng, [
                        u'1', u'2', u'12', u'31', u'2000', u'x', u''])])
            if gen.chance(rng, 0.3):
                ps.append([s['n'] or u'zz', u'2001-02-03'])
            op = {'o': 'cflat', 'pairs': ps}
        else:
            op = {'o': 'part', 'key': gen.pick(rng, N(s).child_specs())['n'],
                  'how': gen.pick(rng, ['set', 'item', 'el']),
                  'x': gen.pick(rng, [1, 2, 3, 12, 13, 29, 31, 2000, 2001,
                                      None, u'x', u'', u'02', 0, -1, 99999])}
        op['s'] = i
        op['w'] = rng.randrange(100)
        return op


# -- T04 --------------------------------------------------------------------

def leaves(n, keys=()):
    """keys -> (value, u) of every leaf of a model tree."""
    out = {}
    if n.k in model.SCALARS:
        out[keys] = pc.canon([n.v, n.ustr])
    elif n.k in model.SEQS:
        for i, c in enumerate(n.kids):
            out.update(leaves(c, keys + (i,)))
    else:
        for s in n.child_specs():
            if s['n'] in n.fields:
                out.update(leaves(n.fields[s['n']], keys + (s['n'],)))
    return out


BULK = ('set', 'mset', 'mpolicyset', 'flat', 'mupdate', 'extend', 'iadd',
        'setslice')


class BulkHist(Hist):

    def extra_before(self, op, e, n):
        self.old = leaves(self.node)
        return None

    def failed(self, op, e, snap, what):
        sim = self.sim
        hit = sim.fault_hit
        good = None
        if hit and op['o'] in BULK:
            # what it would have been: the model is thrown away afterwards
            try:
                self.mod()
                good = leaves(self.node)
            except ModelError:
                pass
        blank = pc.canon([None, u''])
        Hist.failed(self, op, e, snap, what)
        if good is not None:
            now = leaves(self.node)
            sim.probe('failed-bulk')
            for k in sorted(now):
                v = now[k]
                if v != blank and v != self.old.get(k) and v != good.get(k):
                    sim.fail('leaf', 'failed %s left %r at %r; it was %r and '
                             'was to become %r' % (
                                 what, v, k, self.old.get(k), good.get(k)))
            extra = [k for k in now if k not in self.old and k not in good]
            if extra:
                sim.fail('leaf', 'failed %s made up %r' % (what, extra))
        if 'retry' in op:
            self.retry(op['retry'], what)

    def retry(self, x, what):
        """Complete data now gives what it gives on a new element."""
        twin = self.cls()
        n = N(self.spec)
        try:
            want = n.set(dv(x))
        except ModelError:
            return
        a = twin.set(dv(x))
        b = self.e.set(dv(x))
        if bool(a) != bool(b) or bool(a) != bool(want):
            self.sim.fail('retry', 'after failed %s: set(%r) returned %r, on '
                          'a new element %r' % (what, x, b, a))
        d = pc.first_diff(pc.tree(twin, self.W), pc.tree(self.e, self.W))
        if d:
            self.sim.fail('retry', 'after failed %s: set(%r) differs from a '
                          'new element at %s' % (what, x, d))
        self.node = n
        self.check('a retry after failed ' + what)
        self.sim.probe('retried')

    # constructors
    def op_new(self, op, e, n):
        kind = op['kind']
        made = []
        if kind == 'flat':
            ps = [tuple(p) for p in op['pairs']]
            fn = lambda: made.append(self.cls.from_flat(Source(ps, self.sim)))
        elif kind == 'kw':
            fn = lambda: made.append(
                self.cls(value=self.wrapsrc(op['x'], self.node)))
        else:
            fn = lambda: made.append(self.cls(self.wrapsrc(op['x'],
                                                           self.node)))

        def mod():
            m = N(self.spec)
            if kind == 'flat':
                m.set_flat(ps)
            else:
                m.set(self.plain(op['x'], m))
            d = model.diff(made[0], m)
            if d:
                self.sim.fail('state', 'a new element from %r: %s' % (op, d))
            return hi.ANY
        return fn, mod


@register
class T04(TreeProp):
    ID = 'T04'
    HIST = BulkHist
    OPS = (5, 12)
    RULE = ('Random nested schemas; bulk assignments (set, set_flat, update, '
            'extend, +=, slices, constructors) fed from sources that fail at '
            'a random item, and conversions that fail; then retries with '
            'complete data; 1 to 3 tasks on one schema; non-trivial: a bulk '
            'assignment failed part way.')

    def nontrivial(self, plan, sim):
        return sim.probes.get('failed-bulk', 0) > 0

    def schema(self, rng):
        return gen.top_schema(rng, gen.pick(rng, [1, 2, 2]), width=3)

    def op_for(self, rng, specs):
        r = rng.random()
        if r < 0.15:
            return hi.any_op(rng, specs)
        i = 0 if gen.chance(rng, 0.5) else rng.randrange(len(specs))
        s = specs[i]
        k = s['k']
        if r < 0.35:
            i, s = 0, specs[0]
            op = {'o': 'new', 'kind': gen.pick(rng, ['pos', 'kw', 'flat']),
                  'x': gen.value_for(rng, s, 0.85),
                  'pairs': gen.pairs_for(rng, s)}
        elif r < 0.55 and i == 0:
            op = {'o': 'flat', 'pairs': gen.pairs_for(rng, s)}
        elif k in model.MAPS:
            op = hi.map_op(rng, s, gen.pick(rng, ['set', 'update',
                                                  'policyset']))
        elif k in model.SEQS and r < 0.9:
            op = hi.seq_op(rng, s, gen.pick(rng, ['set', 'extend', 'iadd',
                                                  'setslice']))
        else:
            op = {'o': 'set', 'x': gen.value_for(rng, s, 0.85)}
        op['s'] = i
        op['w'] = rng.randrange(100)
        op['f'] = gen.cb_fault(rng, gen.pick(rng, [2, 6, 15]))
        if gen.chance(rng, 0.15):
            del op['f']
        if gen.chance(rng, 0.5):
            op['retry'] = gen.value_for(rng, specs[0], 0.95)
        return op
