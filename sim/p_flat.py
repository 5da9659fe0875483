# -*- coding: utf-8 -*-
"""F01 storage and transport, F02 set_flat and noise, F03 bounded lists."""
import copy
import core
import disk
import gen
import model
import world
import p_common as pc
from base import Prop, Ctx, register, ntasks
from core import SimFault

SEPS = [u'_', u'_', u'_', u'-', u'.', u'~~', u'--', u'|', u'+', u'$']


def pick_sep(rng):
    return gen.pick(rng, SEPS)


class Pairs(object):
    """Something with items() and nothing else."""

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self):
        return list(self.pairs)


def as_input(kind, pairs):
    pairs = [tuple(p) for p in pairs]
    if kind == 'tuple':
        return tuple(pairs)
    if kind == 'gen':
        return (p for p in pairs)
    if kind == 'items':
        return Pairs(pairs)
    if kind == 'dict' and len(set([p[0] for p in pairs])) == len(pairs):
        return dict(pairs)
    if kind == 'iter':
        return iter(pairs)
    return pairs


def pairs_canon(pairs):
    return sorted([[k, v] for k, v in pairs], key=lambda p: p[0])


def group(pairs):
    """key -> values in order, keys in first-seen order."""
    keys, vals = [], {}
    for k, v in pairs:
        if k not in vals:
            keys.append(k)
        vals.setdefault(k, []).append(v)
    return [[k, vals[k]] for k in keys]


def regroup(recs):
    return [(k, v) for k, vs in recs for v in vs]


# -- F01 --------------------------------------------------------------------

@register
class F01(Prop):
    ID = 'F01'
    CHUNK = 25
    QUICK = 100
    THOROUGH = 3000
    RULE = ('Writers flatten elements into a simulated log (crashes, torn '
            'and lost unsynced records, full disk, retries) or a lossy '
            'network; another copy of the package restores them; '
            'non-trivial: a fault fired, a record or message was lost, '
            'duplicated, torn or reordered, or a preemption inside the '
            'library.')
    STUB = 'disk and network are simulated; records pass through JSON bytes'

    def nontrivial(self, plan, sim):
        return bool(sim.preempts or sim.fired or
                    [k for k in sim.probes if 'record' in k or 'messag' in k])

    def gen(self, rng):
        spec = gen.top_schema(rng, gen.some(rng, 1, 3))
        if gen.chance(rng, 0.15):
            spec = gen.schema(rng, 1, gen.pick(rng, [u'a', None, u'f']),
                              top=True)
        if gen.chance(rng, 0.2):
            spec = gen.echo_names(rng, gen.top_schema(rng, 3, width=2))
        nt = ntasks(rng, 0.5, 3)
        fault = gen.chance(rng, 0.6)
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 1, 2)):
                op = {'how': gen.pick(rng, ['set', 'set', 'pairs', 'fill',
                                            'default']),
                      'x': gen.value_for(rng, spec, 0.8),
                      'pairs': gen.pairs_for(rng, spec),
                      'in': gen.pick(rng, ['list', 'gen', 'items', 'dict',
                                           'tuple', 'iter']),
                      'restore': gen.pick(rng, ['set_flat', 'from_flat',
                                                'reuse']),
                      'via': gen.pick(rng, ['disk', 'net', 'both'])}
                nodes = gen.random_node(rng, spec)
                op['fill'] = [list(p) for p in nodes.flatten()]
                n = 30
                net = {}
                if gen.chance(rng, 0.6):
                    net['order'] = rng.randrange(1 << 20)
                if gen.chance(rng, 0.5):
                    net['dup'] = [i for i in range(n) if gen.chance(rng, .3)]
                if gen.chance(rng, 0.4):
                    net['drop'] = [i for i in range(n) if gen.chance(rng, .2)]
                op['net'] = net
                op['sync'] = gen.pick(rng, [1, 2, 3, 100])
                op['crash'] = [gen.pick(rng, ['lost', 'kept', 'torn'])
                               for _ in range(3)]
                op['stop'] = gen.chance(rng, 0.4)
                if gen.chance(rng, 0.15):
                    op['size'] = gen.some(rng, 20, 600)
                op['retry'] = gen.chance(rng, 0.5)
                if fault:
                    r = rng.random()
                    if r < 0.5:
                        op['f'] = gen.cb_fault(rng, 12)
                    elif r < 0.8:
                        op['f'] = gen.pt_fault(rng, 300)
                ops.append(op)
            tasks.append(ops)
        return {'spec': spec, 'sep': pick_sep(rng), 'tasks': tasks,
                'sched': gen.sched(rng, nt)}

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.spec = plan['spec']
        c.sep = plan['sep']
        peer = world.get('peer')
        W.activate()
        c.cls = gen.build(c.spec, W)
        c.peer = gen.build(c.spec, peer)
        c.P = peer
        return c

    def do(self, c, i, op):
        sim, sep = c.sim, c.sep
        e = c.cls()
        how = op['how']
        try:
            if how == 'set':
                e.set(model.dv(op['x']))
            elif how == 'pairs':
                e.set_flat([tuple(p) for p in op['pairs']])
            elif how == 'fill':
                e.set_flat([tuple(p) for p in op['fill']])
            else:
                e.set_default()
        except (KeyError, TypeError, ValueError):
            # set() may refuse what the plan offers (policies)
            e = c.cls()
        # the writer
        log = disk.Log(sim, op.get('size'))
        whole = []

        def write():
            recs = group(e.flatten(sep))
            for n, rec in enumerate(recs):
                log.append(rec)
                if (n + 1) % op['sync'] == 0:
                    log.sync()
            log.sync()
            return recs
        r = sim.op('write', op.get('f'), write)
        for attempt in range(2):
            if r[0] == 'ok':
                break
            if r[0] == 'exc' and not isinstance(r[1], disk.DiskFull) and \
                    not (attempt == 0 and sim.fault_hit):
                sim.fail('flatten', 'flatten raised %r' % (r[1],))
            if op['stop']:
                log.crash(op['crash'])
            if not op['retry'] or attempt:
                break
            log.size = None
            r = sim.op('write again', None, write)
        sent = group(e.flatten(sep))
        # what flatten says must be what the tree holds
        want = model.N(c.spec)
        self.mirror(e, want)
        got = pairs_canon(e.flatten(sep))
        if got != pairs_canon(want.flatten(sep)):
            sim.fail('flatten', 'flatten() gives %r, the tree holds %r' % (
                got, pairs_canon(want.flatten(sep))))
        recs = log.read()
        msgs = recs
        if op['via'] in ('net', 'both'):
            multi = self.multi(c)
            if op['via'] == 'net':
                msgs = sent
            msgs = disk.deliver(msgs, op['net'], sim)
        # the receiver: several values of one key travel in one record, so
        # that a duplicated record is recognised by its key
        arrived, seen = [], {}
        for k, vs in msgs:
            if len(vs) > 1 or self.multi(c):
                if k in seen:
                    continue
            seen[k] = True
            arrived.append((k, vs))
        pairs = regroup(arrived)
        node = model.N(c.spec)
        node.set_flat(pairs, sep)
        cls = c.peer

        def restore():
            src = as_input(op['in'], pairs)
            if op['restore'] == 'from_flat' and sep == u'_':
                return cls.from_flat(src)
            x = cls()
            x.set_flat(src, sep)
            return x
        r = sim.op('restore', None, restore)
        if r[0] != 'ok':
            sim.fail('restore', 'set_flat(%r) raised %r' % (pairs, r[1]))
        x = r[1]
        d = model.diff(x, node)
        if d:
            sim.fail('restore', 'restored from %r: %s' % (pairs, d))
        # everything arrived: nothing may differ where text says it all
        if sorted(seen) == sorted([k for k, v in sent]):
            sim.probe('complete')
            full = model.N(c.spec)
            full.set_flat(regroup(sent), sep)
            if model.diff(e, full) is None:
                sim.probe('complete-roundtrip')
                if pc.canon(x.value) != pc.canon(e.value) or \
                        (c.spec['k'] not in model.MAPS and
                         c.spec['k'] not in ('List', 'Array')
                         and x.u != e.u) or \
                        pairs_canon(x.flatten(sep)) != got:
                    sim.fail('roundtrip', '%r is restored as %r' % (
                        e.value, x.value))
        else:
            sim.probe('partial')
        if op['restore'] == 'reuse':
            # a restored element written out and restored again is the same
            node2 = model.N(c.spec)
            p2 = x.flatten(sep)
            node2.set_flat(p2, sep)
            y = c.cls()
            y.set_flat(p2, sep)
            d = model.diff(y, node2)
            if d:
                sim.fail('restore', 'second trip: %s' % d)

    def multi(self, c):
        return [s for s in gen.walk(c.spec) if s['k'] in ('Array',
                                                          'MultiValue')]

    def mirror(self, e, n):
        mirror(e, n)


def mirror(e, n):
    """Fill model node *n* from a real element, structure and leaves only."""
    k = n.k
    if k in model.SCALARS:
        n.v, n.ustr = e.value, e.u
    elif k in model.SEQS:
        n.kids = []
        for c in e:
            mirror(c, n.blank_member())
    else:
        if k == 'SparseDict':
            specs = dict([(s['n'], s) for s in n.spec['of']])
            n.fields = dict([(f, model.N(specs[f], n)) for f in e.keys()])
        for f in n.fields:
            mirror(e[f], n.fields[f])


# -- F02 --------------------------------------------------------------------

def real_keys(rng, spec, sep):
    node = gen.random_node(rng, spec)
    return [list(p) for p in node.flatten(sep)]


def noise_key(rng, keys, sep):
    """A key that looks like one of *keys* but (usually) is not."""
    k = gen.pick(rng, keys) if keys else u'a'
    r = rng.randrange(24)
    parts = k.split(sep)
    i = rng.randrange(len(parts))
    if r == 0:
        return k + gen.pick(rng, [u'x', u'_', u'1', u' ', u'\n'])
    if r == 1:
        return gen.pick(rng, [u'x', u'_', u'1', u' ', sep]) + k
    if r == 2:
        return k[:-1]
    if r == 3:
        return k[1:]
    if r == 4:
        return k + sep
    if r == 5:
        return k + sep + gen.pick(rng, [u'zz', u'0', u'', u'a', k])
    if r == 6:
        return k.upper() if k != k.upper() else k.lower()
    if r == 7:
        return sep.join(parts[:i])
    if r == 8:
        return sep.join(parts[i:])
    if r == 9:
        return sep.join(parts[:i] + parts[i + 1:])
    if r in (10, 11, 12):
        bad = gen.pick(rng, [u'-1', u'x', u'', u'1x', u'x1', u' 1', u'1 ',
                             u'+1', u'1.0', u'0x1', u'1e1', u'\xb2',
                             u'\u0661', u'999999999999', u'007', u'-0',
                             u'None', u'1\n'])
        return sep.join(parts[:i] + [bad] + parts[i + 1:])
    if r == 13:
        return sep.join(parts[:i] + [bad2(rng)] + parts[i:])
    if r == 14:
        return k.replace(sep, gen.pick(rng, [u'_', u'.', u'', sep + sep]))
    if r == 15:
        return None
    if r == 16:
        return u''
    if r == 17:
        return sep
    if r == 18:
        return gen.pick(rng, gen.NAMES)
    if r == 19:
        return sep.join(reversed(parts))
    if r >= 22:
        # one character lost, or two changed places
        j = rng.randrange(len(k) + 1)
        if r == 22:
            return k[:j] + k[j + 1:]
        return k[:j] + k[j + 1:j + 2] + k[j:j + 1] + k[j + 2:]
    if r == 20:
        return k.encode('utf-8').decode('latin-1') + u'\xff'
    return u'csrf_token'


def bad2(rng):
    return gen.pick(rng, [u'', u'0', u'1', u'a', u'year'])


@register
class F02(Prop):
    ID = 'F02'
    CHUNK = 40
    QUICK = 64
    THOROUGH = 3000
    RULE = ('Random schemas and pair streams, reordered, repeated, thinned '
            'and mixed with near-miss keys, on new and reused elements, by '
            '1-3 tasks; non-trivial: the stream was disturbed or a '
            'preemption fell inside the library.')

    def nontrivial(self, plan, sim):
        return bool(sim.preempts or sim.probes.get('noise')
                    or sim.probes.get('reordered'))

    def gen(self, rng):
        spec = gen.top_schema(rng, gen.some(rng, 1, 3))
        if gen.chance(rng, 0.25):
            spec = gen.schema(rng, gen.some(rng, 1, 2),
                              gen.pick(rng, [u'a', None, u'f']), top=True)
        sep = pick_sep(rng)
        if gen.chance(rng, 0.35):
            self.prefixes(rng, spec, sep)
        elif gen.chance(rng, 0.2):
            spec = gen.echo_names(rng, gen.top_schema(rng, 3, width=2))
        elif gen.chance(rng, 0.12):
            sep = gen.pick(rng, [u'--', u'__', u'~~', u'--'])
            spec = {'k': 'Array', 'n': gen.pick(rng, [u'a', u'ab', u'--']),
                    'of': [{'k': 'String', 'n': sep[0] + gen.pick(rng, [
                        u'x', u'', sep[0], u'a'])}]}
            if gen.chance(rng, 0.5):
                spec = {'k': 'Dict', 'n': gen.pick(rng, [None, u'd']), 'of': [
                    spec, {'k': 'String', 'n': u'x'}]}
        nt = ntasks(rng, 0.6, 3)
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 1, 3)):
                pairs = gen.pairs_for(rng, spec, sep)
                keys = [p[0] for p in pairs] + [
                    p[0] for p in real_keys(rng, spec, sep)]
                noise = []
                full = [x for x in gen.walk(spec) if x['k'] == 'List'
                        and x.get('prune') is False]
                for _ in range(gen.pick(rng, [0, 1, 3, 8])):
                    noise.append([noise_key(rng, keys, sep),
                                  gen.pick(rng, [u'9', u'', u'zz'])])
                    if full and u'9999' in (noise[-1][0] or u''):
                        # (it would be filled up to its bound; that is F03)
                        noise.pop()
                ops.append({'pairs': pairs, 'noise': noise,
                            'order': rng.randrange(1 << 20),
                            'rep': [gen.chance(rng, 0.3) for _ in range(5)],
                            'in': gen.pick(rng, ['list', 'gen', 'items',
                                                 'tuple', 'iter', 'dict']),
                            'reuse': gen.chance(rng, 0.5),
                            'x': gen.value_for(rng, spec, 0.9)})
                if gen.chance(rng, 0.3):
                    n = gen.pick(rng, [spec.get('n'), u'other', u'a', None])
                    if spec['k'] not in model.MAPS + ('List',):
                        n = n or u'other'
                    s2 = gen.pick(rng, [sep, u'_', u'.', u'~~'])
                    spec2 = dict(spec, n=n)
                    ops[-1]['also'] = {
                        'n': n, 'sep': s2, 'first': gen.chance(rng, 0.5),
                        'pairs': gen.pairs_for(rng, spec2, s2) +
                        real_keys(rng, spec2, s2)}
            tasks.append(ops)
        return {'spec': spec, 'sep': sep, 'tasks': tasks,
                'sched': gen.sched(rng, nt)}

    def prefixes(self, rng, spec, sep):
        """Give sibling fields names that are prefixes of each other."""
        inner = gen.chance(rng, 0.5)
        for s in gen.walk(spec):
            if s['k'] in model.MAPS and len(s['of']) > 1:
                base = gen.pick(rng, [u'a', u'x', u'b1'])
                names = [base, base + base, base + u'1', base + u' ',
                         base + u'x', base.upper() + base, base + u'0',
                         u'x' + base, base + u'\xe9']
                names = sorted(set(names))
                rng.shuffle(names)
                if s['k'] == 'Form':
                    names = [n for n in names if n != base + u' ']
                if inner:
                    # names with the separator inside
                    k = len(s['of'])
                    names = [base] + [gen.pick(rng, [
                        base + sep + u'q', base + sep + u'0' + sep + u'q',
                        names[m], u'q' + sep + base]) for m in range(k)]
                    names = sorted(set(names[:k]))
                    rng.shuffle(names)
                old = [c.get('n') for c in s['of']]
                for c, n in zip(s['of'], names):
                    c['n'] = n
                now = [c.get('n') for c in s['of']]
                if len(set(now)) < len(now) or self.ambiguous(rng, spec, sep):
                    for c, n in zip(s['of'], old):
                        c['n'] = n

    def ambiguous(self, rng, spec, sep):
        """Do two elements have the same key?"""
        many = [s for s in gen.walk(spec)
                if s['k'] in ('Array', 'MultiValue')]
        for _ in range(4):
            keys = [k for k, v in gen.random_node(rng, spec).flatten(sep)]
            if len(set(keys)) < len(keys) and not many:
                return True
        return False

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.spec = plan['spec']
        c.sep = plan['sep']
        c.cls = gen.build(c.spec, W)
        c.single = not [s for s in gen.walk(c.spec)
                        if s['k'] in ('Array', 'MultiValue')]
        return c

    def load(self, c, pairs, kind, what):
        e = c.cls()
        r = c.sim.op(what, None, lambda: e.set_flat(
            as_input(kind, pairs), c.sep))
        if r[0] != 'ok':
            c.sim.fail('raises', '%s: set_flat(%r) raised %r' % (
                what, pairs, r[1]))
        return e

    def against(self, c, e, pairs, what, node=None):
        if node is None:
            node = model.N(c.spec)
        node.set_flat([tuple(p) for p in pairs], c.sep)
        d = model.diff(e, node)
        if d:
            c.sim.fail('assignment', '%s %r (sep %r): %s' % (
                what, pairs, c.sep, d))
        return node

    def blank(self, node):
        return repr(pc.canon(node.value())), sorted(node.flatten()), [
            len(x.children()) for x in node.all_children()]

    def do(self, c, i, op):
        sim, sep = c.sim, c.sep
        pairs = [tuple(p) for p in op['pairs']]
        also = op.get('also')
        if also and also['first']:
            self.also(c, also)
        e = self.load(c, pairs, op['in'], 'plain')
        self.against(c, e, pairs, 'plain')
        first = pc.tree(e, c.W)
        # reordering pairs of different keys
        rng = core.mkrng('order', op['order'])
        queues = dict([(k, list(vs)) for k, vs in group(pairs)])
        order = [k for k, v in pairs]
        rng.shuffle(order)
        mixed = [(k, queues[k].pop(0)) for k in order]
        if mixed != pairs:
            sim.probe('reordered')
        e2 = self.load(c, mixed, op['in'], 'reordered')
        self.same(c, first, e2, 'reordered', pairs, mixed)
        # repeating the pairs of single-valued fields
        if c.single:
            rep = []
            for n, p in enumerate(mixed):
                rep.append(p)
                if op['rep'][n % len(op['rep'])]:
                    rep.append(p)
                    if n % 2:
                        rep.insert(0, p)
            e3 = self.load(c, rep, op['in'], 'repeated')
            self.same(c, first, e3, 'repeated', pairs, rep)
        # noise
        blank = self.blank(model.N(c.spec))
        quiet, loud = [], []
        for k, v in op['noise']:
            n = model.N(c.spec)
            n.set_flat([(k, v if v else u'zz'), (k, u'zz')], sep)
            if self.blank(n) == blank:
                quiet.append((k, v))
            else:
                loud.append((k, v))
        if quiet:
            sim.probe('noise', len(quiet))
            z = list(mixed)
            for n in quiet:
                z.insert(rng.randrange(len(z) + 1), n)
            e4 = self.load(c, z, op['in'], 'with noise')
            self.same(c, first, e4, 'with noise', pairs, z)
        if loud:
            sim.probe('loud', len(loud))
            z = list(mixed)
            for n in loud + quiet:
                z.insert(rng.randrange(len(z) + 1), n)
            e5 = self.load(c, z, 'list', 'with other keys')
            self.against(c, e5, z, 'with other keys')
        if op['reuse']:
            self.reuse(c, op, mixed, quiet)
        if also and not also['first']:
            self.also(c, also)

    def also(self, c, op):
        """The same schema under another name, with another separator."""
        spec = dict(c.spec, n=op['n'])
        cls = c.cls
        if op['n'] != c.spec.get('n'):
            cls = cls.named(op['n'])
        e, node = cls(), model.N(spec)
        pairs = [tuple(p) for p in op['pairs']]
        r = c.sim.op('another', None, lambda: e.set_flat(pairs, op['sep']))
        if r[0] != 'ok':
            c.sim.fail('raises', 'as %r with %r: set_flat(%r) raised %r' % (
                op['n'], op['sep'], pairs, r[1]))
        node.set_flat(pairs, op['sep'])
        d = model.diff(e, node)
        if d:
            c.sim.fail('assignment', 'as %r with %r: %r: %s' % (
                op['n'], op['sep'], pairs, d))
        c.sim.probe('also')

    def same(self, c, first, e, what, pairs, now):
        d = pc.first_diff(first, pc.tree(e, c.W))
        if d:
            c.sim.fail('order', '%s %r, then %s %r: %s' % (
                'set_flat of', pairs, what, now, d))

    def reuse(self, c, op, pairs, quiet):
        """A second set_flat on an element that already holds data."""
        e = c.cls()
        node = model.N(c.spec)
        x = model.dv(op['x'])
        try:
            node.set(x)
        except model.ModelError:
            return
        e.set(model.dv(op['x']))
        # pairs for half of the fields
        sep = c.sep
        if c.spec['k'] in model.MAPS:
            fields = [s['n'] for s in c.spec['of']]
            keep = fields[::2]
            pre = c.spec.get('n')
            pre = pre + sep if pre is not None else u''
            part = [(k, v) for k, v in pairs if [
                f for f in keep if k == pre + f
                or k.startswith(pre + f + sep)]]
        else:
            part = pairs
            keep = None
        before = pc.tree(e, c.W)
        e.set_flat(part, sep)
        self.against(c, e, part, 'reused', node)
        if keep is not None:
            # fields not named keep their state
            a = dict([(k, t) for k, t in before['kids']])
            b = dict([(k, t) for k, t in pc.tree(e, c.W)['kids']])
            for s in c.spec['of']:
                f = s['n']
                named = [k for k, v in part if k == pre + f
                         or k.startswith(pre + f + sep)]
                if not named and f in a:
                    d = pc.first_diff(a[f], b.get(f))
                    if d:
                        c.sim.fail('untouched', 'field %r is not named by '
                                   '%r: %s' % (f, part, d))


# -- F03 --------------------------------------------------------------------

BIG = [u'1024', u'1023', u'1025', u'5000', u'99999', u'2147483647',
       u'2147483648', u'9223372036854775807', u'9223372036854775808',
       u'1' + u'0' * 40, u'9' * 200, u'00', u'007', u'0000000001', u'-1',
       u'-5', u'x', u'', u'\u0663', u'\u0967\u0968', u'\xb2', u'1e9',
       u'0x10', u'+3', u' 4', u'4 ', u'1_000']


@register
class F03(Prop):
    ID = 'F03'
    CAP = 3000000
    CHUNK = 20
    QUICK = 64
    THOROUGH = 3000
    RULE = ('Nested Lists of random bounds fed pair streams with huge, '
            'sparse, malformed and non-ASCII indexes in random order; '
            'non-trivial: some list was offered more members than its bound '
            'or an index of six digits or more.')

    def nontrivial(self, plan, sim):
        return bool(sim.probes.get('over') or sim.probes.get('huge'))

    def lst(self, rng, depth, name):
        s = {'k': 'List', 'n': name}
        r = rng.random()
        if depth > 0 and r < 0.3:
            s['of'] = [self.lst(rng, depth - 1, gen.pick(rng, [None, u'l',
                                                               u'0']))]
        elif depth > 0 and r < 0.55:
            s['of'] = [{'k': 'Dict', 'n': gen.pick(rng, [None, u'd']), 'of': [
                self.lst(rng, depth - 1, u'p'), {'k': 'String', 'n': u'q'}]}]
        elif r < 0.75:
            s['of'] = [gen.scalar_spec(rng, gen.pick(rng, [None, u'm']))]
        elif r < 0.9:
            s['of'] = [{'k': 'Integer', 'n': u'x'}, {'k': 'String',
                                                     'n': u'y'}]
        else:
            s['of'] = [{'k': 'Array', 'n': gen.pick(rng, [None, u'r']),
                        'of': [{'k': 'String', 'n': None}]}]
        if gen.chance(rng, 0.55):
            s['prune'] = False
        r = rng.random()
        if r < 0.75:
            s['max'] = gen.pick(rng, [0, 1, 1, 2, 3, 5, 8, 20])
        return s

    def key(self, rng, spec, sep, fixed):
        """A key for something under *spec*, with any indexes."""
        parts = []
        s = spec
        while True:
            if s.get('n') is not None:
                parts.append(s['n'])
            if s['k'] == 'List':
                r = rng.random()
                if r < 0.55:
                    parts.append(u'%d' % gen.some(rng, 0, 9))
                elif r < 0.75 and fixed:
                    parts.append(gen.pick(rng, fixed))
                else:
                    parts.append(gen.pick(rng, BIG))
                s = model.N(s).member_spec()
            elif s['k'] == 'Dict':
                s = gen.pick(rng, s['of'])
            elif s['k'] == 'Array':
                s = s['of'][0]
            else:
                break
        return sep.join(parts)

    def gen(self, rng):
        depth = gen.pick(rng, [0, 1, 1, 2])
        spec = self.lst(rng, depth, gen.pick(rng, [u'l', None, u'a']))
        if gen.chance(rng, 0.6):
            if spec['n'] is None:
                spec['n'] = u'l'
            spec = {'k': gen.pick(rng, ['Dict', 'Form', 'SparseDict']),
                    'n': gen.pick(rng, [None, u'f']),
                    'of': [spec, {'k': 'String', 'n': u'z'}]}
        # without a bound of their own lists stop at 1024: few of those
        free = [s for s in gen.walk(spec) if s['k'] == 'List'
                and 'max' not in s]
        for s in free[1:]:
            s['max'] = gen.some(rng, 1, 6)
        sep = pick_sep(rng)
        nt = ntasks(rng, 0.8, 2)
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 1, 2)):
                fixed = [gen.pick(rng, BIG[:14]) for _ in range(3)]
                fixed.append(u'%d' % rng.randrange(2000))
                pairs = []
                for _ in range(gen.pick(rng, [1, 3, 8, 20, 40])):
                    pairs.append([self.key(rng, spec, sep, fixed),
                                  gen.pick(rng, [u'', u'1', u'x', u'7'])])
                op = {'pairs': pairs, 'in': gen.pick(
                    rng, ['list', 'gen', 'items', 'tuple']),
                      'reuse': gen.chance(rng, 0.3)}
                if gen.chance(rng, 0.2):
                    op['f'] = gen.pt_fault(rng, 3000)
                if gen.chance(rng, 0.3):
                    # settings of the element rather than of its class
                    op['own'] = {'max': gen.pick(rng, [0, 1, 2, 3, 7, 30])}
                    if gen.chance(rng, 0.3):
                        op['own']['prune'] = gen.chance(rng, 0.5)
                ops.append(op)
            tasks.append(ops)
        return {'spec': spec, 'sep': sep, 'tasks': tasks,
                'sched': gen.sched(rng, nt)}

    def make(self, c, own):
        """An element and the specification it goes by."""
        if not own or c.spec['k'] == 'SparseDict':
            return c.cls(), c.spec
        spec = copy.deepcopy(c.spec)
        kw = {'maximum_set_flat_members': own['max']}
        if 'prune' in own:
            kw['prune_empty'] = own['prune']
        if spec['k'] == 'List':
            spec.update(own)
            return c.cls(**kw), spec
        e = c.cls()
        s = spec['of'][0]
        s.update(own)
        for k, v in kw.items():
            setattr(e[s['n']], k, v)
        return e, spec

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.spec = plan['spec']
        c.sep = plan['sep']
        c.cls = gen.build(c.spec, W)
        c.lists = [s for s in gen.walk(c.spec) if s['k'] == 'List']
        return c

    def do(self, c, i, op):
        sim, sep = c.sim, c.sep
        e, spec = self.make(c, op.get('own'))
        pairs = [tuple(p) for p in op['pairs']]
        node = model.N(spec)
        node.set_flat(pairs, sep)
        elements = 1 + len(node.all_children())
        for k, v in pairs:
            if len(k) > 6 and [x for x in k.split(sep) if len(x) > 5]:
                sim.probe('huge')
        if elements > 1:
            self.over(c, node, pairs)
        t = sim.cur
        n0 = t.n
        r = sim.op('set_flat', op.get('f'), lambda: e.set_flat(
            as_input(op['in'], pairs), sep))
        spent = t.n - n0
        self.bounds(c, e, spec, 'root')
        # work: a generous line through what the package needs
        size = sum([1 + len(k.split(sep)) for k, v in pairs])
        allowed = 2000 + 400 * size + 400 * elements
        if spent > allowed:
            sim.fail('work', '%d steps for %d pairs making %d elements '
                     '(allowed %d)' % (spent, len(pairs), elements, allowed))
        if sim.fault_hit:
            # the interrupted element is still bounded; a new one is right
            e = self.make(c, op.get('own'))[0]
            r = sim.op('set_flat again', None, lambda: e.set_flat(
                as_input(op['in'], pairs), sep))
        if r[0] != 'ok':
            sim.fail('raises', 'set_flat(%r) raised %r' % (pairs, r[1]))
        self.bounds(c, e, spec, 'root')
        d = model.diff(e, node)
        if d:
            sim.fail('members', 'set_flat(%r) sep %r: %s' % (pairs, sep, d))
        if op['reuse']:
            r = sim.op('set_flat', None, lambda: e.set_flat(pairs, sep))
            self.bounds(c, e, spec, 'root')
            node.set_flat(pairs, sep)
            d = model.diff(e, node)
            if d:
                sim.fail('members', 'second set_flat(%r): %s' % (pairs, d))

    def over(self, c, node, pairs):
        for n in [node] + node.all_children():
            if n.k == 'List' and len(n.kids) == n.spec.get('max', 1024):
                c.sim.probe('over')

    def bounds(self, c, e, spec, where):
        if spec['k'] == 'List':
            limit = spec.get('max', 1024)
            if len(e) > limit:
                c.sim.fail('bound', '%s has %d members, its bound is %d' % (
                    where, len(e), limit))
            ms = model.N(spec).member_spec()
            for n, m in enumerate(e):
                self.bounds(c, m, ms, '%s[%d]' % (where, n))
        elif spec['k'] in model.MAPS:
            for s in spec['of']:
                if s['n'] in e:
                    self.bounds(c, e[s['n']], s, '%s.%s' % (where, s['n']))
