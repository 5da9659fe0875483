# -*- coding: utf-8 -*-
"""Random histories of changes applied to a real element tree and to the
model at once."""
import gen
import model
import p_common as pc
from model import N, ModelError, dv


def normalise(spec):
    """Lists of several fields get an explicit anonymous Dict, so that every
    node of the tree belongs to a node of the spec."""
    spec = dict(spec)
    if spec.get('of'):
        spec['of'] = [normalise(c) for c in spec['of']]
        if spec['k'] in model.SEQS and len(spec['of']) > 1:
            spec['of'] = [{'k': 'Dict', 'n': None, 'of': spec['of'],
                           'anon': True}]
    return spec


def specs_of(spec):
    return list(gen.walk(spec))


def pairs(e, n):
    """Every (real element, model node) of two equally shaped trees."""
    out, q = [], [(e, n)]
    while q:
        e, n = q.pop(0)
        out.append((e, n))
        if n.k in model.SEQS:
            q.extend(zip(list(e), n.kids))
        elif n.fields:
            for s in n.child_specs():
                if s['n'] in n.fields:
                    q.append((e[s['n']], n.fields[s['n']]))
    return out


def mirror(e, n):
    """Fill model node *n* from a real element, structure and leaves only."""
    k = n.k
    if k in model.SCALARS:
        n.v, n.ustr = e.value, e.u
    elif k in model.SEQS:
        n.kids = []
        for c in e:
            mirror(c, n.blank_member())
    else:
        if k == 'SparseDict':
            specs = dict([(s['n'], s) for s in n.spec['of']])
            n.fields = dict([(specs[f]['n'], N(specs[f], n))
                             for f in e.keys()])
        for f in n.fields:
            mirror(e[f], n.fields[f])


def fullu(n):
    k = n.k
    if k in model.SCALARS or k in ('MultiValue', 'JoinedString', 'YMD', 'PT'):
        return n.u()
    if k in model.SEQS:
        return [fullu(c) for c in n.kids]
    return dict([(f, fullu(c)) for f, c in n.fields.items()])


def same(a, b):
    return model.same_value(a.value(), b.value()) and fullu(a) == fullu(b)


def where(q):
    """Read everything that depends on the place of an element."""
    return [q.root, list(q.parents), list(q.path), q.fq_name(),
            q.flattened_name(), q.flatten(), q.find(u'/'), q.el(u'.'),
            list(q.children), q.label, q.u, q.is_empty]


def sortkey(v):
    return repr(pc.canon(v))


class Source(object):
    """An iterable that calls back for every item."""

    def __init__(self, items, sim):
        self.got = items
        self.sim = sim

    def __iter__(self):
        for x in self.got:
            self.sim.cb('source')
            yield x
        self.sim.cb('source')


class DictSource(object):
    """keys() and __getitem__, calling back."""

    def __init__(self, pairs, sim):
        self.d = dict(pairs)
        self.order = [k for k, v in pairs]
        self.sim = sim

    def keys(self):
        self.sim.cb('source')
        return [k for i, k in enumerate(self.order)
                if k not in self.order[:i]]

    def __getitem__(self, k):
        self.sim.cb('source')
        return self.d[k]


def hooked(getsim, base=None):
    """An *extra* for gen.build: scalars whose adapt, serialize and
    valid_value call back."""
    def extra(spec, cls):
        if base is not None:
            cls = base(spec, cls) or cls
        if spec['k'] in ('String', 'Integer', 'Float', 'Boolean', 'Date',
                         'Time', 'DateTime', 'Cons', 'Enum') and \
                spec.get('hook'):
            def adapt(self, value):
                getsim().cb('adapt')
                r = super(new[0], self).adapt(value)
                getsim().cb('adapted')
                return r

            def serialize(self, value):
                getsim().cb('serialize')
                return super(new[0], self).serialize(value)
            new = [None]
            new[0] = type(cls)(cls.__name__, (cls,), {
                'adapt': adapt, 'serialize': serialize})
            return new[0]
        return cls
    return extra


# -- operations -----------------------------------------------------------

SEQ_OPS = ('append', 'append', 'extend', 'insert', 'insert', 'setitem',
           'setslice', 'delitem', 'delslice', 'pop', 'remove', 'reverse',
           'sort', 'iadd', 'set', 'index', 'count', 'contains', 'move',
           'appendel', 'setitemel', 'insertel', 'getitem', 'getslice')
MAP_OPS = ('setitem', 'setitem', 'delitem', 'pop', 'clear', 'popitem',
           'setdefault', 'update', 'update', 'get', 'set', 'setel',
           'contains', 'policyset', 'keys', 'foreign')
KEYS_BAD = (u'zzz', u'', u'0', None, 5)


def slice_arg(rng):
    return [gen.pick(rng, [None, 0, 1, 2, -1, -2, 9]),
            gen.pick(rng, [None, 0, 1, 2, 3, -1, 9]),
            gen.pick(rng, [None, None, None, 1, 2, -1])]


def seq_op(rng, spec, o=None):
    o = o or gen.pick(rng, SEQ_OPS)
    op = {'o': o}
    ms = N(spec).member_spec()
    v = lambda: gen.value_for(rng, ms, 0.85, 1)
    if o in ('append', 'remove', 'index', 'count', 'contains', 'appendel'):
        op['x'] = v()
        if o in ('remove', 'index', 'count', 'contains'):
            op['have'] = rng.randrange(5) if gen.chance(rng, 0.6) else None
            op['wrap'] = gen.chance(rng, 0.3)
    elif o in ('insert', 'insertel'):
        op['i'] = gen.pick(rng, [0, 1, 2, -1, -2, 7, -9])
        op['x'] = v()
    elif o in ('setitem', 'setitemel', 'getitem'):
        op['i'] = gen.pick(rng, [0, 0, 1, 1, 2, -1, -2, 7, -9])
        op['x'] = v()
    elif o in ('delitem', 'pop'):
        op['i'] = gen.pick(rng, [0, 0, 1, 1, 2, -1, -2, 7, -9])
        if o == 'pop' and gen.chance(rng, 0.4):
            op['i'] = None
    elif o in ('extend', 'iadd'):
        op['xs'] = [v() for _ in range(gen.some(rng, 0, 3))]
        op['wrap'] = [gen.chance(rng, 0.3) for _ in op['xs']]
        op['src'] = gen.pick(rng, ['list', 'gen', 'tuple'])
    elif o in ('setslice', 'delslice', 'getslice'):
        op['sl'] = slice_arg(rng)
        op['xs'] = [v() for _ in range(gen.some(rng, 0, 3))]
        op['wrap'] = [gen.chance(rng, 0.3) for _ in op['xs']]
        op['old'] = gen.chance(rng, 0.5)   # i:j without extended syntax
        op['src'] = gen.pick(rng, ['list', 'list', 'gen', 'tuple'])
    elif o == 'sort':
        op['rev'] = gen.chance(rng, 0.4)
    elif o == 'set':
        op['x'] = gen.value_for(rng, spec, 0.85)
    return op


def map_op(rng, spec, o=None):
    o = o or gen.pick(rng, MAP_OPS)
    op = {'o': 'm' + o}
    s = gen.pick(rng, spec['of'])
    key = s['n']
    if gen.chance(rng, 0.12):
        key = gen.pick(rng, KEYS_BAD)
    op['key'] = key
    if o == 'foreign':
        op['x'] = rng.randrange(100)
    elif o in ('setitem', 'setdefault', 'setel'):
        op['x'] = gen.value_for(rng, s, 0.85, 1)
    elif o == 'update':
        ps = []
        for c in spec['of']:
            if gen.chance(rng, 0.6):
                ps.append([c['n'], gen.value_for(rng, c, 0.85, 1)])
        if gen.chance(rng, 0.1):
            ps.append([u'zzz', u'1'])
        rng.shuffle(ps)
        op['ps'] = ps
        op['src'] = gen.pick(rng, ['dict', 'pairs', 'kw', 'keys', 'gen'])
    elif o == 'set':
        op['x'] = gen.value_for(rng, spec, 0.85)
    elif o == 'policyset':
        op['x'] = gen.value_for(rng, spec, 0.85)
        op['policy'] = gen.pick(rng, ['strict', 'subset', 'duck'])
    return op


def any_op(rng, specs, root=True, flat=True):
    """An operation somewhere in the tree."""
    i = rng.randrange(len(specs))
    s = specs[i]
    k = s['k']
    if root and gen.chance(rng, 0.12):
        i, s, k = 0, specs[0], specs[0]['k']
        r = rng.random()
        if r < 0.5 and flat:
            op = {'o': 'flat', 'pairs': gen.pairs_for(rng, s)}
        elif r < 0.6:
            op = {'o': 'default'}
        else:
            op = {'o': 'set', 'x': gen.value_for(rng, s, 0.85)}
    elif k in model.SCALARS:
        op = {'o': 'set', 'x': gen.value_for(rng, s, 0.75)}
    elif k in model.COMPS:
        r = rng.random()
        if r < 0.35:
            op = {'o': 'set', 'x': gen.value_for(rng, s, 0.75)}
        elif r < 0.85:
            op = {'o': 'part', 'key': gen.pick(rng, N(s).child_specs())['n'],
                  'how': gen.pick(rng, ['set', 'item', 'el']),
                  'x': gen.pick(rng, [1, 2, 3, 12, 13, 29, 31, 2000, 2001,
                                      None, u'x', u'', u'02', 0, -1, 99999])}
        else:
            op = {'o': 'assign', 'x': gen.value_for(rng, s, 0.75),
                  'attr': gen.pick(rng, ['value', 'u'])}
    elif k in model.SEQS:
        op = seq_op(rng, s)
    else:
        op = map_op(rng, s)
    op['s'] = i
    op['w'] = rng.randrange(100)
    return op


READS = ('getitem', 'getslice', 'index', 'count', 'contains', 'mget',
         'mcontains', 'mkeys')
MEMBER_OPS = ('append', 'appendel', 'insert', 'insertel', 'setitem',
              'setitemel', 'delitem', 'delslice', 'pop', 'remove')
FIELD_OPS = ('msetitem', 'msetel', 'mforeign', 'mdelitem', 'mpop',
             'msetdefault', 'mclear', 'mpopitem')
# a failure leaves everything as it was (for those that assign: when the
# member or field is a scalar)
ATOMIC = READS + MEMBER_OPS + FIELD_OPS


def shot(n):
    return pc.canon([n.value(), fullu(n)])


class Hist(object):
    """A real tree, its model, and operations on both."""

    def __init__(self, c, cls, spec, classes, specs=None, node=None, e=None):
        self.c = c
        self.sim = c.sim
        self.W = c.W
        self.cls = cls
        self.spec = spec
        self.specs = specs or specs_of(spec)
        self.classes = classes
        self.node = node or N(spec)
        self.e = e if e is not None else cls()

    # what the workload may do besides
    def target(self, op):
        s = self.specs[op['s']]
        got = [(e, n) for e, n in pairs(self.e, self.node) if n.spec is s]
        if not got:
            return None
        return got[op['w'] % len(got)]

    def check(self, what):
        d = model.diff(self.e, self.node)
        if d:
            self.sim.fail('state', 'after %s: %s' % (what, d))
        self.check_structure(what)

    def check_structure(self, what):
        d = model.structure(self.e, self.spec, self.W, None, 'root',
                            self.classes)
        if d:
            self.sim.fail('structure', 'after %s: %s' % (what, d))
        for e, n in pairs(self.e, self.node):
            if len(e.flattened_name()) and \
                    e.flattened_name() != n.flat_name():
                self.sim.fail('name', 'after %s: %r calls itself %r' % (
                    what, n.flat_name(), e.flattened_name()))

    def failed(self, op, e, snap, what):
        """After an operation that failed: the tree is well formed, and what
        a failure may not have changed is as it was."""
        whole, mine, ids = snap
        self.resync(what)
        n = [y for x, y in pairs(self.e, self.node) if x is e]
        if not n:
            self.sim.fail('lost', 'after failed %s: the element it was '
                          'applied to has left its tree' % what)
        n = n[0]
        now = pc.canon([self.node.value(), fullu(self.node)])
        o = op['o']
        atomic = o in ATOMIC
        if o in MEMBER_OPS and atomic and n.k in model.SEQS:
            atomic = n.member_spec()['k'] in model.SCALARS
        if o in FIELD_OPS:
            s = self.schema_for(n, op['key'])
            atomic = s is None or o not in ('msetitem', 'msetdefault', 'mforeign') or \
                o != 'msetdefault' and s['k'] in model.SCALARS
        if o == 'set':
            atomic = n.k in model.SCALARS
        if atomic:
            d = pc.first_diff(whole, now)
            if d:
                self.sim.fail('changed', 'failed %s changed the tree: %s' % (
                    what, d))
            if ids is not None and [id(x) for x in e] != \
                    [id(x) for x in ids] and o not in FIELD_OPS:
                self.sim.fail('changed', 'failed %s exchanged members' % what)
            return
        # nothing outside the element has changed
        if o in ('extend', 'iadd'):
            have = list(e)
            if len(have) < len(ids) or \
                    [1 for a, b in zip(ids, have) if a is not b]:
                self.sim.fail('changed', 'failed %s changed members that '
                              'were there' % what)
            if n.member_spec()['k'] in model.SCALARS:
                for c, x in zip(n.kids[len(ids):], op['xs']):
                    m = N(n.member_spec(), n)
                    m.set(dv(x))
                    if not same(m, c):
                        self.sim.fail('changed', 'failed %s added %r, not '
                                      '%r' % (what, c.value(), x))
        elif o == 'sort':
            if sorted([id(x) for x in e]) != sorted([id(x) for x in ids]):
                self.sim.fail('changed', 'failed %s lost or made up members'
                              % what)
        elif o in ('mupdate', 'msetdefault', 'msetitem', 'mforeign'):
            names = [k for k, x in op.get('ps', ())] or [op['key']]
            for k, c in n.fields.items():
                if k not in names and (k not in mine or
                                       not mine[k] == shot(c)):
                    self.sim.fail('changed', 'failed %s changed %r' % (
                        what, k))
            if not set(mine) <= set(n.fields):
                self.sim.fail('changed', 'failed %s removed fields' % what)

    def resync(self, what):
        """After a failure: whatever is there must be well formed."""
        d = model.structure(self.e, self.spec, self.W, None, 'root',
                            self.classes)
        if d:
            self.sim.fail('structure', 'after failed %s: %s' % (what, d))
        self.node = N(self.spec, self.node.parent)
        mirror(self.e, self.node)
        self.check('failed ' + what)

    def apply(self, op, f=None):
        """Returns False when the operation had no target."""
        t = self.target(op)
        if t is None:
            return False
        e, n = t
        o = op['o']
        pre = self.extra_before(op, e, n)
        snap = (pc.canon([self.node.value(), fullu(self.node)]),
                dict([(k, shot(c)) for k, c in n.fields.items()]),
                list(e) if n.k in model.SEQS else None)
        try:
            real, mod = getattr(self, 'op_' + o)(op, e, n)
        except Skip:
            return False
        if real is None:
            return False
        self.mod = mod
        r = self.sim.op(o, f, real)
        what = '%s %s' % (o, dict([(k, v) for k, v in op.items()
                                   if k not in ('o', 's', 'w')]))
        if self.sim.fault_hit:
            self.fault_seen(op, r, what)
            self.failed(op, e, snap, what)
            return True
        try:
            want = ('ok', mod())
        except ModelError, x:
            want = ('exc', x.args[0])
        if want[0] == 'exc':
            if r[0] == 'ok':
                self.sim.fail('accepted', '%s should raise %s, gave %r' % (
                    what, want[1], r[1]))
            names = [c.__name__ for c in type(r[1]).__mro__]
            if not [x for x in want[1].split('|') if x in names]:
                self.sim.fail('error', '%s should raise %s, raised %r' % (
                    what, want[1], r[1]))
            self.failed(op, e, snap, what)
            return True
        if r[0] != 'ok':
            self.sim.fail('error', '%s raised %r' % (what, r[1]))
        if want[1] is not ANY and not model.same_value(r[1], want[1]):
            self.sim.fail('result', '%s gave %r, expected %r' % (
                what, r[1], want[1]))
        self.check(what)
        self.extra_after(op, e, n, pre, what)
        return True

    def fault_seen(self, op, r, what):
        if r[0] == 'ok':
            self.sim.fail('swallowed', '%s: an exception of a callback or '
                          'source did not reach the caller' % what)

    def extra_before(self, op, e, n):
        return None

    def extra_after(self, op, e, n, pre, what):
        pass

    # -- scalars and generic -------------------------------------------

    def op_set(self, op, e, n):
        x = lambda: self.wrapsrc(op['x'], n)
        return (lambda: e.set(x())), lambda: n.set(self.plain(op['x'], n))

    def plain(self, x, n):
        """The same for the model, in the order the source gives."""
        if isinstance(x, dict) and n.k in model.MAPS and 'd' in x:
            return [(k, dv(i)) for k, i in x['d']]
        return dv(x)

    def wrapsrc(self, x, n):
        """Containers come from sources that call back."""
        v = dv(x)
        if isinstance(x, dict) and n.k not in model.SCALARS and \
                n.k not in model.COMPS:
            tag = x.keys()[0]
            if tag == 'l':
                return Source(v, self.sim)
            if tag == 'p':
                return Source(v, self.sim)
            if tag == 'd':
                return DictSource([(k, dv(i)) for k, i in x['d']], self.sim)
        return v

    def op_flat(self, op, e, n):
        ps = [tuple(p) for p in op['pairs']]
        if n is self.node:
            return (lambda: e.set_flat(Source(ps, self.sim))), \
                lambda: n.set_flat(ps)
        raise Skip()

    def op_default(self, op, e, n):
        return e.set_default, n.set_default

    def op_part(self, op, e, n):
        key, x = op['key'], dv(op['x'])
        how = op['how']

        def fn():
            if how == 'item':
                e[key] = x
            elif how == 'el':
                e.el(key).set(x)
            else:
                e[key].set(x)
        return fn, mod_any(lambda: n.fields[key].set(x))

    def op_assign(self, op, e, n):
        x = dv(op['x'])

        def fn():
            setattr(e, op['attr'], x)
        return fn, mod_any(lambda: n.set(x))

    # -- sequences -------------------------------------------------------

    def member(self, n, x):
        c = N(n.member_spec(), n)
        c.set(dv(x))
        return c

    def real_member(self, e, x, w=0):
        """A member made outside of *e*: new, already read from, or taken
        from another sequence of the same schema."""
        m = e.member_schema()
        m.set(dv(x))
        how = w % 4
        if how:
            home = None
            if how > 1:
                home = type(e)()
                home.extend([m, m.__class__()])
            for q in [m] + list(m.all_children):
                where(q)
            if how == 3:
                home.pop(0)
                for q in [m] + list(m.all_children):
                    where(q)
        return m

    def adopt(self, n, *cs):
        for c in cs:
            c.parent = n
        n.renumber()

    def op_append(self, op, e, n):
        def mod():
            n.kids.append(self.member(n, op['x']))
            n.renumber()
        return (lambda: e.append(dv(op['x']))), mod

    def op_appendel(self, op, e, n):
        def mod():
            n.kids.append(self.member(n, op['x']))
            n.renumber()
        try:
            m = self.real_member(e, op['x'], op['w'])
        except Exception:
            raise Skip()
        self.keep = (m, -1)

        def fn():
            e.append(m)
            if e[-1] is not m:
                self.sim.fail('identity', 'append stored another element')
        return fn, mod

    def op_insert(self, op, e, n):
        def mod():
            n.kids.insert(op['i'], self.member(n, op['x']))
            n.renumber()
        return (lambda: e.insert(op['i'], dv(op['x']))), mod

    def op_insertel(self, op, e, n):
        try:
            m = self.real_member(e, op['x'], op['w'])
        except Exception:
            raise Skip()

        def fn():
            e.insert(op['i'], m)
            if not [x for x in e if x is m]:
                self.sim.fail('identity', 'insert stored another element')

        def mod():
            n.kids.insert(op['i'], self.member(n, op['x']))
            n.renumber()
        return fn, mod

    def op_getitem(self, op, e, n):
        if not -len(n.kids) <= op['i'] < len(n.kids):
            return (lambda: e[op['i']]), raises('IndexError')
        return (lambda: e[op['i']] is list(e)[op['i']]), lambda: True

    def op_setitem(self, op, e, n):
        i = op['i']

        def fn():
            e[i] = dv(op['x'])

        def mod():
            c = self.member(n, op['x'])
            if n.k == 'List':
                # sets the member that is there
                if not -len(n.kids) <= i < len(n.kids):
                    raise ModelError('IndexError')
                n.kids[i].set(dv(op['x']))
                return
            try:
                n.kids[i] = c
            except IndexError:
                raise ModelError('IndexError')
        if n.k == 'List' and not -len(n.kids) <= i < len(n.kids):
            return fn, raises('IndexError')
        return fn, mod

    def op_setitemel(self, op, e, n):
        i = op['i']
        try:
            m = self.real_member(e, op['x'], op['w'])
        except Exception:
            raise Skip()

        def fn():
            e[i] = m
            if e[i] is not m:
                self.sim.fail('identity', 'item assignment stored another '
                              'element')

        def mod():
            try:
                n.kids[i] = self.member(n, op['x'])
            except IndexError:
                raise ModelError('IndexError')
            n.renumber()
        return fn, mod

    def members(self, op, e):
        """Real arguments: plain values and prepared elements."""
        out = []
        for x, w in zip(op['xs'], op['wrap']):
            if w:
                try:
                    out.append(self.real_member(e, x, op['w']))
                except Exception:
                    raise Skip()
            else:
                out.append(dv(x))
        return out

    def srcof(self, op, xs):
        if op['src'] == 'gen':
            return Source(xs, self.sim)
        if op['src'] == 'tuple':
            return tuple(xs)
        return list(xs)

    def op_extend(self, op, e, n):
        xs = self.members(op, e)

        def mod():
            for x in op['xs']:
                n.kids.append(self.member(n, x))
            n.renumber()
        return (lambda: e.extend(self.srcof(op, xs))), mod

    def op_iadd(self, op, e, n):
        xs = self.members(op, e)

        def fn():
            q = e
            q += self.srcof(op, xs)
            if q is not e:
                self.sim.fail('identity', '+= made another sequence')

        def mod():
            for x in op['xs']:
                n.kids.append(self.member(n, x))
            n.renumber()
        return fn, mod

    def op_setslice(self, op, e, n):
        xs = self.members(op, e)
        a, b, s = op['sl']

        def fn():
            if op['old']:
                e[a if a is not None else 0:b if b is not None else 99] = \
                    self.srcof(op, xs)
            else:
                e[slice(a, b, s)] = self.srcof(op, xs)

        def mod():
            cs = [self.member(n, x) for x in op['xs']]
            try:
                if op['old']:
                    n.kids[a if a is not None else 0:
                           b if b is not None else 99] = cs
                else:
                    n.kids[slice(a, b, s)] = cs
            except ValueError:
                raise ModelError('ValueError')
            n.renumber()
        return fn, mod

    def op_getslice(self, op, e, n):
        sl = slice(*op['sl'])

        def fn():
            got = e[sl]
            want = list(e)[sl]
            if len(got) != len(want):
                return False
            return not [1 for x, y in zip(got, want) if x is not y]
        return fn, lambda: True

    def op_delslice(self, op, e, n):
        a, b, s = op['sl']

        def fn():
            if op['old']:
                del e[a if a is not None else 0:b if b is not None else 99]
            else:
                del e[slice(a, b, s)]

        def mod():
            if op['old']:
                del n.kids[a if a is not None else 0:
                           b if b is not None else 99]
            else:
                del n.kids[slice(a, b, s)]
            n.renumber()
        return fn, mod

    def op_delitem(self, op, e, n):
        def fn():
            del e[op['i']]

        def mod():
            try:
                del n.kids[op['i']]
            except IndexError:
                raise ModelError('IndexError')
            n.renumber()
        return fn, mod

    def op_pop(self, op, e, n):
        i = op['i']
        have = list(e)

        def fn():
            x = e.pop() if i is None else e.pop(i)
            if x is not have[-1 if i is None else i]:
                self.sim.fail('result', 'pop(%r) gave %r, not the member' % (
                    i, x))

        def mod():
            try:
                n.kids.pop(*([] if i is None else [i]))
            except IndexError:
                raise ModelError('IndexError')
            n.renumber()
        return fn, mod

    def op_reverse(self, op, e, n):
        def mod():
            n.kids.reverse()
            n.renumber()
        return e.reverse, mod

    def op_sort(self, op, e, n):
        sim = self.sim

        def key(x):
            sim.cb('sortkey')
            return sortkey(x.value)

        def mod():
            n.kids.sort(key=lambda c: sortkey(c.value()),
                        reverse=op['rev'])
            n.renumber()
        return (lambda: e.sort(key=key, reverse=op['rev'])), mod

    def op_move(self, op, e, n):
        """Members put back in another order."""
        def fn():
            e[:] = list(reversed(list(e)))

        def mod():
            n.kids.reverse()
            n.renumber()
        return fn, mod

    def probe_value(self, op, e, n):
        if op['have'] is not None and n.kids:
            m = n.kids[op['have'] % len(n.kids)]
            if n.k != 'JoinedString' or True:
                if m.k in model.SCALARS and m.v is not None:
                    return m.v, m
        return dv(op['x']), None

    def wrapped(self, op, e, n):
        x, known = self.probe_value(op, e, n)
        if op.get('wrap'):
            m = e.member_schema()
            try:
                m.set(x)
            except Exception:
                raise Skip()
            return m, x
        return x, x

    def mod_find(self, n, x):
        c = N(n.member_spec(), n)
        c.set(x)
        return [i for i, k in enumerate(n.kids) if same(k, c)]

    def op_remove(self, op, e, n):
        x, plain = self.wrapped(op, e, n)

        def mod():
            at = self.mod_find(n, plain)
            if not at:
                raise ModelError('ValueError')
            del n.kids[at[0]]
            n.renumber()
        return (lambda: e.remove(x)), mod

    def op_index(self, op, e, n):
        x, plain = self.wrapped(op, e, n)

        def mod():
            at = self.mod_find(n, plain)
            if not at:
                raise ModelError('ValueError')
            return at[0]
        return (lambda: e.index(x)), mod

    def op_count(self, op, e, n):
        x, plain = self.wrapped(op, e, n)
        return (lambda: e.count(x)), lambda: len(self.mod_find(n, plain))

    def op_contains(self, op, e, n):
        if [s for s in gen.walk(n.member_spec()) if s['k'] in model.COMPS]:
            # Jython's list.__contains__ compares dict subclasses as Java
            # maps, by their children, not with __eq__
            raise Skip()
        x, plain = self.wrapped(op, e, n)
        return (lambda: x in e), lambda: bool(self.mod_find(n, plain))

    # -- mappings --------------------------------------------------------

    def schema_for(self, n, key):
        for s in n.spec['of']:
            if s['n'] == key:
                return s
        return None

    def locked(self, n, key):
        """May *key* not be removed?"""
        return bool(n.spec.get('minf')) and \
            not (self.schema_for(n, key) or {}).get('opt')

    def put(self, n, key, x):
        s = self.schema_for(n, key)
        if s is None:
            raise ModelError('TypeError|KeyError')
        if key in n.fields:
            n.fields[key].set(x)
        else:
            c = N(s, n)
            c.set(x)
            n.fields[key] = c

    def op_msetitem(self, op, e, n):
        def fn():
            e[op['key']] = dv(op['x'])
        return fn, lambda: self.put(n, op['key'], dv(op['x']))

    def op_msetel(self, op, e, n):
        """An element of the schema assigned into a SparseDict."""
        key = op['key']
        s = self.schema_for(n, key)
        if n.k != 'SparseDict' or s is None:
            raise Skip()
        m = e.field_schema_mapping[key]()
        c = N(s, n)
        try:
            c.set(dv(op['x']))
            m.set(dv(op['x']))
        except Exception:
            raise Skip()
        for q in [m] + list(m.all_children):
            where(q)

        def fn():
            e[key] = m
            if e[key] is not m:
                self.sim.fail('identity', 'assigning an element stored '
                              'another one')

        def mod():
            n.fields[key] = c
        return fn, mod

    def op_mforeign(self, op, e, n):
        """An element of another schema assigned: its value is set."""
        key = op['key']
        s = self.schema_for(n, key)
        if s is None or s['k'] != 'String':
            raise Skip()
        x = u'%d' % op['x']
        m = self.W.fl.Integer(x)

        def fn():
            e[key] = m
        return fn, lambda: self.put(n, key, x)

    def op_mdelitem(self, op, e, n):
        key = op['key']

        def fn():
            del e[key]

        def mod():
            if n.k != 'SparseDict' or self.schema_for(n, key) is None or \
                    self.locked(n, key):
                raise ModelError('TypeError|KeyError')
            if key not in n.fields:
                raise ModelError('KeyError')
            del n.fields[key]
        return fn, mod

    def op_mpop(self, op, e, n):
        key = op['key']

        def fn():
            old = dict.get(e, key)
            x = e.pop(key)
            if x is not old:
                self.sim.fail('result', 'pop gave another element')

        def mod():
            if key not in n.fields:
                raise ModelError('KeyError')
            if n.k != 'SparseDict' or self.locked(n, key):
                raise ModelError('TypeError')
            del n.fields[key]
        return fn, mod

    def op_mclear(self, op, e, n):
        def mod():
            if n.k != 'SparseDict':
                raise ModelError('TypeError')
            n.reset()
        return e.clear, mod

    def op_mpopitem(self, op, e, n):
        return e.popitem, raises('TypeError|NotImplementedError')

    def op_msetdefault(self, op, e, n):
        key = op['key']

        def mod():
            s = self.schema_for(n, key)
            if n.k != 'SparseDict' or s is None:
                raise ModelError('TypeError')
            c = n.fields.get(key)
            if c is not None:
                if not c.is_empty():
                    return c.value()
            else:
                c = n.fields[key] = N(s, n)
            c.set(dv(op['x']))
            return dv(op['x'])
        return (lambda: e.setdefault(key, dv(op['x']))), mod

    def op_mget(self, op, e, n):
        key = op['key']
        if key in n.fields:
            return (lambda: e.get(key) is e[key]), lambda: True
        return (lambda: e.get(key)), raises('KeyError')

    def op_mcontains(self, op, e, n):
        key = op['key']
        return (lambda: [key in e, bool(e.may_contain(key)),
                         e.has_key(key)]), \
            lambda: [key in n.fields, self.schema_for(n, key) is not None,
                     key in n.fields]

    def op_mkeys(self, op, e, n):
        def fn():
            ks = list(e.keys())
            if len(e) != len(ks) or sorted(ks) != sorted(iter(e)) or \
                    sorted(ks) != sorted([k for k, v in e.items()]) or \
                    sorted(map(id, e.values())) != \
                    sorted(map(id, e.children)) or \
                    [k for k in ks if e[k] is not dict(e.items())[k]]:
                self.sim.fail('views', 'keys, items, values and children '
                              'disagree')
            return sorted(ks)
        return fn, lambda: sorted(n.fields)

    def op_mset(self, op, e, n):
        return self.op_set(op, e, n)

    def op_mpolicyset(self, op, e, n):
        def mod():
            old = n.spec
            n.spec = dict(old, policy=op['policy'])
            try:
                return n.set(self.plain(op['x'], n))
            finally:
                n.spec = old
        return (lambda: e.set(self.wrapsrc(op['x'], n), policy=op['policy'])), \
            mod

    def op_mupdate(self, op, e, n):
        ps = [(k, dv(x)) for k, x in op['ps']]
        src = op['src']
        if src == 'kw' and [k for k, x in ps if [
                ch for ch in k if ord(ch) > 127]]:
            src = 'pairs'
        if src == 'kw':
            kw = dict([(str(k), x) for k, x in ps])
            ps = [(k.decode('ascii'), x) for k, x in kw.items()]
            fn = lambda: e.update(**kw)
        elif src == 'dict':
            d = dict(ps)
            ps = d.items()
            fn = lambda: e.update(d)
        elif src == 'keys':
            d = DictSource(ps, self.sim)
            ps = [(k, d.d[k]) for i, k in enumerate(d.order)
                  if k not in d.order[:i]]
            fn = lambda: e.update(d)
        elif src == 'gen':
            fn = lambda: e.update(Source(ps, self.sim))
        else:
            fn = lambda: e.update(ps)

        def mod():
            for k, x in ps:
                self.put(n, k, x)
        return fn, mod


class Skip(Exception):
    pass


ANY = object()


def raises(names):
    def mod():
        raise ModelError(names)
    return mod


def mod_any(fn):
    def mod():
        fn()
        return ANY
    return mod
