# -*- coding: utf-8 -*-
"""V01-V03: what validate() runs, judges, contains and announces."""
import hashlib

import gen
import history as hi
import model
import p_common as pc
from base import Prop, Ctx, register, ntasks
from history import Hist
from model import N, ModelError, dv

OUT = ['True', 'True', 'True', '1', 'yes', 'Skip', 'SkipAll', 'SkipAllFalse',
       'False', 'False', '0', 'None']
BY = ['const', 'const', 'u', 'u', 'kids', 'state', 'valid']


def script(rng, n, down=False, msgs=('plain', 'plain', 'both', None)):
    by = gen.pick(rng, BY)
    k = 1 if by == 'const' else gen.some(rng, 2, 4)
    out = list(OUT)
    if down:
        out += ['SkipAll', 'SkipAllFalse', 'True']
    return {'id': n, 'by': by, 'res': [gen.pick(rng, out) for i in range(k)],
            'msg': gen.pick(rng, list(msgs)),
            'norm': gen.chance(rng, 0.1), 'nest': gen.chance(rng, 0.06)}


def add_scripts(rng, spec, msgs=('plain', 'plain', 'both', None), p=0.6):
    """Scripted validators all over a spec; returns them."""
    pool = []

    def one(down=False):
        if pool and gen.chance(rng, 0.2):
            return gen.pick(rng, pool)['id']      # shared by several fields
        pool.append(script(rng, len(pool), down, msgs))
        return pool[-1]['id']
    for s in gen.walk(spec):
        if gen.chance(rng, p):
            s['val'] = [one() for i in range(gen.some(rng, 1, 3))]
            s['how'] = gen.pick(rng, ['by', 'using', 'incl'])
        if s['k'] not in model.SCALARS and gen.chance(rng, p * 0.7):
            s['down'] = [one(True) for i in range(gen.some(rng, 1, 2))]
    return pool


def scripted(c):
    """The validators of a plan, as one class with many instances."""
    W, sim = c.W, c.sim
    V = W.v.Validator
    named = {'True': True, '1': 1, 'yes': u'yes', 'Skip': W.fl.Skip,
             'SkipAll': W.fl.SkipAll, 'SkipAllFalse': W.fl.SkipAllFalse,
             'False': False, '0': 0, 'None': None}

    class Scripted(V):
        s = None
        text = u'm%(num)s of %(label)s'
        made = None

        def result(self, element, state):
            s = self.s
            by, res = s['by'], s['res']
            if by == 'const':
                k = 0
            elif by == 'u':
                x = repr(pc.canon(element.value))
                k = int(hashlib.md5(x).hexdigest()[:6], 16)
            elif by == 'kids':
                k = len(list(element.children))
            elif by == 'valid':
                k = len([1 for x in element.children if not x.valid])
            else:
                k = getattr(state, 'k', 0)
            return named[res[k % len(res)]]

        def validate(self, element, state):
            s = self.s
            marks = c.marks.setdefault(c.me(), [])
            marks.append([c.tick(), None])
            sim.cb('validator')
            r = self.result(element, state)
            adds = []
            if s['msg'] in ('plain', 'both'):
                element.add_error(u'm%d' % s['id'])
                adds.append(('e', u'm%d' % s['id']))
            if s['msg'] == 'both':
                element.add_warning(u'w%d' % s['id'])
                adds.append(('w', u'w%d' % s['id']))
            if s['msg'] in ('note', 'call'):
                kw = {'num': s['id']}
                if s['msg'] == 'note':
                    self.note_error(element, state, 'text', **kw)
                    self.note_warning(element, state, 'text', **kw)
                else:
                    self.note_error(element, state, 'made', **kw)
                adds.append((s['msg'], s['id']))
            if s['norm'] and c.norm and element.value is not None and \
                    isinstance(element, W.fl.String) and \
                    not isinstance(element, W.fl.Sequence):
                element.value = element.u = element.u.upper() + u''
            if s.get('edit') and c.norm:
                c.edit(element, s['edit'])
            if s['nest'] and c.nest and not c.depth.get(c.me()):
                c.depth[c.me()] = True
                try:
                    c.nested(element, state)
                finally:
                    c.depth[c.me()] = False
            if s.get('sw') is not None:
                c.receivers[s['sw']].switch()
            sim.cb('validated')
            marks[-1][1] = c.tick()
            c.logs[c.me()].append((self, element, state, r, adds))
            return r

    def made(element, state):
        sim.cb('message')
        return u'm%(num)s of %(label)s'
    Scripted.made = staticmethod(made)
    out = []
    for s in c.plan['scripts']:
        v = Scripted()
        v.s = s
        out.append(v)
    return out


class VState(object):

    def __init__(self, k, lang=None, sim=None):
        self.k = k
        if lang:
            st = pc.State(lang, sim)
            self.ugettext = st.ugettext
            self.lang = lang


def texts(adds, element, state):
    """The messages a run should have added: [(list, text)]."""
    out = []
    for kind, x in adds:
        if kind == 'e':
            out.append(('errors', x))
        elif kind == 'w':
            out.append(('warnings', x))
        else:
            # substitutions that are text are translated one by one
            tr = lambda t: t
            if getattr(state, 'lang', None):
                tr = lambda t: u'%s:%s' % (state.lang, t) \
                    if isinstance(t, basestring) else t
            t = tr(u'm%(num)s of %(label)s') % {'num': x,
                                                'label': tr(element.label)}
            out.append(('errors', t))
            if kind == 'note':
                out.append(('warnings', t))
    return out


class ValCtx(Ctx):
    norm = nest = False

    def __init__(self, plan, sim, W):
        Ctx.__init__(self, plan, sim, W)
        self.logs = {}
        self.marks = {}           # task -> [[start, end] of each run]
        self.now = 0
        self.begin = {}
        self.depth = {}
        self.hist = {}
        self.spec = hi.normalise(plan['schema'])
        self.specs = hi.specs_of(self.spec)
        self.classes = {}
        self.scripts = scripted(self)
        W.signals.validator_validated._clear_state()
        self.receivers = []
        self.cls = gen.build(self.spec, W, self.classes, self.attach)
        self.Nest = W.fl.Integer.named(u'nested')

    def tick(self):
        self.now += 1
        return self.now

    def me(self):
        t = self.sim.cur
        return t.idx if t is not None else -1

    def attach(self, spec, cls):
        vs = [self.scripts[i] for i in spec.get('val') or ()]
        if vs:
            how = spec['how']
            if how == 'by':
                cls = cls.validated_by(*vs)
            elif how == 'using':
                cls = cls.using(validators=vs)
            else:
                cls = cls.including_validators(*vs[1:])
                cls = cls.including_validators(vs[0], position=0)
        if spec.get('down'):
            cls = cls.descent_validated_by(
                *[self.scripts[i] for i in spec['down']])
        if spec.get('lang'):
            cls = cls.using(ugettext=pc.State(spec['lang'],
                                              self.sim).ugettext)
        return cls

    def edit(self, e, how):
        """A descent validator tidies up below its element, which stays
        empty or not empty as it was."""
        fl = self.W.fl
        if isinstance(e, fl.Sequence):
            n = len(e)
            if not n:
                return
            if how == 0:
                e[0] = e.member_schema()
            elif how == 1:
                e.append(e.member_schema())
            elif how == 2 and n > 1:
                e.pop()
            elif how == 3 and n > 1:
                e.insert(0, e.pop())
            elif how == 4 and n > 1:
                del e[0]
            else:
                e.reverse()
        elif isinstance(e, fl.SparseDict):
            if how % 2 and len(e) > 1 and e.minimum_fields is None:
                del e[sorted(e.keys())[0]]
            elif len(e):
                for s in e.field_schema:
                    if s.name not in e:
                        e[s.name] = s()
                        break
        elif isinstance(e, fl.Dict):
            for s in e.field_schema[how % 2:]:
                x = e[s.name]
                if isinstance(x, fl.Sequence):
                    del x[:]
                elif not isinstance(x, fl.Dict) or \
                        isinstance(x, self.W.schema.Compound):
                    x.set(None)
        else:
            return
        self.sim.probe('edited')

    def nested(self, element, state):
        """validate() of another element, in the middle of one."""
        sim = self.sim
        x = self.Nest(element.u and 1 or None)
        old = list(self.logs[self.me()])
        mine = []
        v = self.scripts[0]

        def f(e, s):
            mine.append((e, s))
            return True
        x.validators = [f, f]
        st = object()
        if x.validate(st) is not True or x.valid is not True or \
                [1 for e, s in mine if e is not x or s is not st] or \
                len(mine) != 2:
            sim.fail('nested', 'a validate() inside a validator went wrong: '
                     '%r' % (mine,))
        if len(self.logs[self.me()]) != len(old):
            sim.fail('nested', 'a validate() inside a validator ran others')
        sim.probe('nested')


class Ref(object):
    """What the documented rules give, checked against the log of runs."""

    def __init__(self, c, specs, log, state):
        self.c = c
        self.specs = specs        # id(element) -> spec
        self.log = log
        self.pos = 0
        self.state = state
        self.events = []          # what signals should have said
        self.msgs = {}            # id -> [(list, text)]
        self.visited = []
        self.valid = {}

    def fail(self, cls, msg):
        self.c.sim.fail(cls, msg)

    def chain(self, e, ids, phase):
        c, W = self.c, self.c.W
        spec = self.specs[id(e)]
        if e.is_empty and spec.get('opt'):
            return True
        if not ids:
            r = not e.is_empty
            self.events.append((W.util.symbol('NotEmpty'), e, self.state, r))
            return r
        for i in ids:
            v = c.scripts[i]
            if self.pos >= len(self.log):
                self.fail('missing', 'validator %d of %s was not run on the '
                          'way %s' % (i, e.fq_name(), phase))
            rv, re, rs, r, adds = self.log[self.pos]
            if rv is not v or re is not e:
                self.fail('order', 'on the way %s validator %d of %s should '
                          'have run, it was %d of %s' % (
                              phase, i, e.fq_name(), rv.s['id'],
                              re.fq_name()))
            if rs is not self.state:
                self.fail('state', 'a validator got another state')
            self.pos += 1
            self.events.append((v, e, self.state, r))
            self.msgs.setdefault(id(e), []).extend(texts(adds, e, rs))
            if r is None:
                return False
            if r is W.fl.Skip:
                return True
            if not r or r is W.fl.SkipAll:
                return r
        return True

    def run(self, root, recurse):
        c, W = self.c, self.c.W
        total = True
        queue, seen = [root], []
        while queue:
            e = queue.pop(0)
            if [1 for x in seen if x is e]:
                continue
            seen.append(e)
            spec = self.specs[id(e)]
            r = None
            if spec['k'] in model.SCALARS:
                r = self.chain(e, spec.get('val'), 'down')
                ran = True
            else:
                ran = bool(spec.get('down'))
                if ran:
                    r = self.chain(e, spec['down'], 'down')
            self.valid[id(e)] = bool(r) if ran else W.fl.Unevaluated
            if ran and not r:
                total = False
            if r is W.fl.SkipAll or r is W.fl.SkipAllFalse or not recurse:
                continue
            queue.extend(list(e.children))
        for e in reversed(seen):
            spec = self.specs[id(e)]
            if spec['k'] in model.SCALARS:
                continue
            r = self.chain(e, spec.get('val'), 'up')
            if self.valid[id(e)]:
                self.valid[id(e)] = bool(r)
            if not r:
                total = False
        if self.pos != len(self.log):
            v, e = self.log[self.pos][:2]
            self.fail('extra', 'validator %d of %s ran and should not have' %
                      (v.s['id'], e.fq_name()))
        self.visited = seen
        return total


class ValProp(Prop):
    CHUNK = 30
    QUICK = 64
    THOROUGH = 3000
    MSGS = ('plain', 'plain', 'both', None)
    FAULTS = 0.0
    OPS = (4, 10)
    VALIDATE = 0.55
    NORM = NEST = False
    P = 0.6

    def gen(self, rng):
        n = ntasks(rng, 0.4, 3)
        spec = gen.top_schema(rng, gen.pick(rng, [1, 2, 2]), width=3)
        pool = add_scripts(rng, spec, self.MSGS, self.P)
        if not pool:
            spec['val'], spec['how'] = [0], 'by'
            pool = [script(rng, 0)]
        specs = hi.specs_of(hi.normalise(spec))
        tasks = [[self.op_for(rng, specs, pool, n)
                  for j in range(gen.some(rng, *self.OPS))]
                 for i in range(n)]
        return {'schema': spec, 'scripts': pool, 'tasks': tasks,
                'start': [gen.value_for(rng, spec, 0.8) for i in range(n)],
                'sched': gen.sched(rng, n)}

    def op_for(self, rng, specs, pool, n):
        if not gen.chance(rng, self.VALIDATE):
            return hi.any_op(rng, specs)
        op = {'o': 'validate', 's': 0 if gen.chance(rng, 0.7) else
              rng.randrange(len(specs)), 'w': rng.randrange(100),
              'k': rng.randrange(4), 'rec': gen.chance(rng, 0.85),
              'lang': gen.pick(rng, [None, u'de', u'fr'])}
        if gen.chance(rng, self.FAULTS):
            op['f'] = self.fault(rng)
        return op

    def fault(self, rng):
        return gen.cb_fault(rng, gen.pick(rng, [2, 5, 15]))

    def setup(self, plan, sim, W):
        c = ValCtx(plan, sim, W)
        c.norm, c.nest = self.NORM, self.NEST
        return c

    def new(self, c, i):
        h = Hist(c, c.cls, c.spec, c.classes, c.specs)
        try:
            x = dv(c.plan['start'][i])
            n = N(c.spec)
            n.set(x)
        except ModelError:
            return h
        h.e.set(x)
        h.node = n
        return h

    def history(self, c, i):
        if i not in c.hist:
            c.hist[i] = self.new(c, i)
        return c.hist[i]

    def do(self, c, i, op):
        h = self.history(c, i)
        if op['o'] == 'validate':
            self.validate(c, h, op)
        else:
            h.apply(op)

    def where(self, h):
        return dict([(id(e), n.spec) for e, n in hi.pairs(h.e, h.node)])

    def validate(self, c, h, op):
        t = h.target(op)
        if t is None:
            return
        e, n = t
        sim, W = c.sim, c.W
        st = VState(op['k'], op['lang'], sim)
        els = [x for x, y in hi.pairs(h.e, h.node)]
        old = [(x, x.valid, list(x.errors), list(x.warnings)) for x in els]
        log = c.logs[c.me()] = []
        c.marks[c.me()] = []
        self.before(c, h, op)
        r = sim.op('validate', op.get('f'),
                   lambda: e.validate(st, recurse=op['rec']))
        what = 'validate(recurse=%r) of %s' % (op['rec'], e.fq_name())
        if sim.fault_hit:
            return self.faulted(c, h, op, e, st, old, log, r, what)
        if r[0] != 'ok':
            sim.fail('error', '%s raised %r' % (what, r[1]))
        if c.norm:
            hi.mirror(h.e, h.node)
            ids = set([id(x[0]) for x in old])
            old += [(x, W.fl.Unevaluated, [], [])
                    for x, y in hi.pairs(h.e, h.node) if id(x) not in ids]
        ref = Ref(c, self.where(h), log, st)
        want = ref.run(e, op['rec'])
        if bool(r[1]) != want:
            sim.fail('verdict', '%s returned %r, should be %r' % (
                what, r[1], want))
        self.judged(c, h, ref, old, what)
        self.after(c, h, op, ref, what)
        h.check(what)
        sim.probe('validated')
        if not want:
            sim.probe('invalid')
        if len(ref.visited) < len(old):
            sim.probe('partial')

    def judged(self, c, h, ref, old, what):
        sim = c.sim
        for x, valid, errors, warnings in old:
            v = ref.valid.get(id(x), valid)
            un = c.W.fl.Unevaluated
            if bool(x.valid) != bool(v) or (x.valid is un) != (v is un):
                sim.fail('valid', 'after %s: valid of %s is %r, should be '
                         '%r' % (what, x.fq_name(), x.valid, v))
            lists = {'errors': errors, 'warnings': warnings}
            for k, t in ref.msgs.get(id(x), ()):
                if t not in lists[k]:
                    lists[k].append(t)
            for k in ('errors', 'warnings'):
                if getattr(x, k) != lists[k]:
                    sim.fail(k, 'after %s: %s of %s are %r, should be %r' % (
                        what, k, x.fq_name(), getattr(x, k), lists[k]))

    def before(self, c, h, op):
        pass

    def after(self, c, h, op, ref, what):
        pass

    def faulted(self, c, h, op, e, st, old, log, r, what):
        raise AssertionError('no faults here')

    def finish(self, c):
        for i in sorted(c.hist):
            c.hist[i].check('the end')
        c.W.signals.validator_validated._clear_state()


@register
class V01(ValProp):
    ID = 'V01'
    NORM = NEST = True

    def gen(self, rng):
        p = ValProp.gen(self, rng)
        if gen.chance(rng, 0.5):
            for s in gen.walk(p['schema']):
                if s['k'] in ('List', 'Array', 'MultiValue', 'SparseDict',
                              'Dict', 'Form') and gen.chance(rng, 0.5):
                    x = script(rng, len(p['scripts']), True)
                    x['edit'] = gen.some(rng, 0, 5)
                    x['nest'] = False
                    p['scripts'].append(x)
                    s.setdefault('down', [])
                    s['down'] = list(s['down'])
                    s['down'].insert(rng.randrange(len(s['down']) + 1),
                                     x['id'])
        return p

    RULE = ('Random schemas with scripted validators (all results, by value, '
            'children, state or validity of children; messages; normalising; '
            'validating others) on the way down and up; 4 to 10 validations '
            'of the tree or parts of it, mixed with changes, by 1 to 3 tasks '
            'sharing schemas and validators; each run is checked against '
            'the rules; non-trivial: an invalid verdict and a validation '
            'that did not visit everything.')

    def nontrivial(self, plan, sim):
        p = sim.probes
        return bool(p.get('invalid') and p.get('partial'))


def canonv(v):
    return repr(v)


# -- V02 --------------------------------------------------------------------

class Receiver(object):
    """A connected receiver and what it was told, per task."""

    def __init__(self, c, sender=None, owner=None):
        self.c = c
        self.sender = sender
        self.owner = owner        # the task that switches it on and off
        self.on = False
        self.got = {}
        self.spans = []           # [[from, to]] while it was connected

    def __call__(self, sender, element, state, result):
        c = self.c
        c.sim.cb('receiver')
        t = c.me()
        self.got.setdefault(t, []).append(
            (sender, element, state, result, len(c.logs.get(t, ()))))
        c.sim.cb('received')

    def connect(self):
        s = self.c.W.signals.validator_validated
        if self.sender is None:
            s.connect(self, weak=False)
        else:
            s.connect(self, sender=self.sender, weak=False)
        self.on = True
        self.spans.append([self.c.tick(), 1 << 60])

    def disconnect(self):
        s = self.c.W.signals.validator_validated
        if self.sender is None:
            s.disconnect(self)
        else:
            s.disconnect(self, sender=self.sender)
        self.on = False
        self.spans[-1][1] = self.c.tick()

    def switch(self):
        if self.on:
            self.disconnect()
        else:
            self.connect()

    def during(self, a, b):
        """Was it connected all the time from a to b, never, or partly?"""
        r = False
        for x, y in self.spans:
            if x <= a and b <= y:
                return True
            if x <= b and a <= y:
                r = None
        return r


@register
class V02(ValProp):
    ID = 'V02'
    MSGS = ('note', 'note', 'call', 'plain', None)
    FAULTS = 0.7
    OPS = (4, 9)
    RULE = ('As V01, with templated and translated messages and signal '
            'receivers; 7 of 10 validations fail in a validator, message '
            'function, translator or receiver, or are interrupted at any '
            'statement, and are then repeated, against a twin tree that is '
            'validated once; non-trivial: a validation failed after a '
            'validator had finished.')

    def nontrivial(self, plan, sim):
        return sim.probes.get('late', 0) > 0

    def fault(self, rng):
        if gen.chance(rng, 0.3):
            return gen.pt_fault(rng, 1500)
        f = gen.cb_fault(rng, gen.pick(rng, [2, 5, 15]))
        if gen.chance(rng, 0.4):
            f = gen.cb_fault(rng, 3, site=gen.pick(rng, [
                'validator', 'validated', 'message', 'ugettext', 'receiver',
                'received']))
        return f

    def gen(self, rng):
        p = ValProp.gen(self, rng)
        for s in p['scripts']:
            if s['by'] == 'valid':
                # on the way down, that is what the validation before left
                s['by'] = 'kids'
        p['receivers'] = gen.some(rng, 0, 2)
        return p

    def setup(self, plan, sim, W):
        c = ValProp.setup(self, plan, sim, W)
        c.twins = {}
        for i in range(plan['receivers']):
            r = Receiver(c)
            r.connect()
            c.receivers.append(r)
        return c

    def do(self, c, i, op):
        if i not in c.twins:
            c.twins[i] = self.new(c, i)
        h, t = self.history(c, i), c.twins[i]
        if op['o'] != 'validate':
            h.apply(op)
            t.apply(op)
            return
        c.twin = t
        self.validate(c, h, op)
        x = t.target(op)
        if x is None:
            return
        if not c.sim.fault_hit:
            # the same validation of the twin
            c.logs[c.me()] = []
            x[0].validate(VState(op['k'], op['lang'], c.sim),
                          recurse=op['rec'])
            self.alike(c, h, t, 'validate')

    def alike(self, c, h, t, what):
        t.check(what)
        for (a, na), (b, nb) in zip(hi.pairs(h.e, h.node),
                                    hi.pairs(t.e, t.node)):
            x = (canonv(a.valid), a.errors, a.warnings)
            y = (canonv(b.valid), b.errors, b.warnings)
            if x != y:
                c.sim.fail('twin', 'after %s: valid, errors and warnings of '
                           '%s are %r; where nothing failed %r' % (
                               what, a.fq_name(), x, y))

    def faulted(self, c, h, op, e, st, old, log, r, what):
        sim = c.sim
        kind = sim.fault_hit
        if r[0] == 'ok':
            sim.fail('swallowed', '%s: an exception did not reach the '
                     'caller' % what)
        h.check('failed ' + what)
        n = h.target(op)
        if n is None or n[0] is not e:
            sim.fail('structure', 'failed %s changed the tree' % what)
        if log:
            sim.probe('late')
        # nothing but messages of a validation without the fault
        t = c.twins[c.me()]
        x = t.target(op)[0]
        c.logs[c.me()] = []
        want = x.validate(VState(op['k'], op['lang'], sim),
                          recurse=op['rec'])
        for (a, na), (b, nb) in zip(hi.pairs(h.e, h.node),
                                    hi.pairs(t.e, t.node)):
            for k in ('errors', 'warnings'):
                bad = [m for m in getattr(a, k) if m not in getattr(b, k)]
                if bad:
                    sim.fail('partial', 'failed %s left the message %r on %s'
                             % (what, bad, a.fq_name()))
        # again, now that the fault is gone
        op = dict(op)
        op.pop('f')
        self.validate(c, h, op)
        self.alike(c, h, t, 'failed (%s) and repeated %s' % (kind, what))
        sim.probe('repeated')


# -- V03 --------------------------------------------------------------------

@register
class V03(ValProp):
    ID = 'V03'
    FAULTS = 0.2
    OPS = (4, 10)
    VALIDATE = 0.5
    RULE = ('As V01, with receivers connected for all or one sender all the '
            'time, and others that tasks connect and disconnect between and '
            'during validations of other tasks; what each receiver was told '
            'is compared with the log of runs; some validations fail; '
            'non-trivial: a receiver was told of 3 runs or more.')

    def nontrivial(self, plan, sim):
        return sim.probes.get('signals', 0) >= 3

    def gen(self, rng):
        p = ValProp.gen(self, rng)
        n = len(p['scripts'])
        who = lambda: gen.pick(rng, [None, None, 'empty', rng.randrange(n)])
        p['receivers'] = [[who(), None] for i in range(gen.some(rng, 0, 2))]
        p['receivers'] += [[who(), rng.randrange(len(p['tasks']))]
                           for i in range(gen.some(rng, 1, 3))]
        for s in p['scripts']:
            if gen.chance(rng, 0.12):
                s['sw'] = len(p['receivers'])
                p['receivers'].append([who(), -1])
        for i, ops in enumerate(p['tasks']):
            mine = [k for k, (w, o) in enumerate(p['receivers']) if o == i]
            for q in range(gen.some(rng, 1, 4) if mine else 0):
                ops.insert(rng.randrange(len(ops) + 1),
                           {'o': 'switch', 'r': gen.pick(rng, mine)})
        return p

    def setup(self, plan, sim, W):
        c = ValProp.setup(self, plan, sim, W)
        for who, owner in plan['receivers']:
            s = None
            if who == 'empty':
                s = W.util.symbol('NotEmpty')
            elif who is not None:
                s = c.scripts[who]
            r = Receiver(c, s, owner)
            if owner is None:
                r.connect()
            c.receivers.append(r)
        return c

    def do(self, c, i, op):
        if op['o'] == 'switch':
            c.sim.op('switch', None, c.receivers[op['r']].switch)
            c.sim.probe('switched')
            return
        ValProp.do(self, c, i, op)

    def before(self, c, h, op):
        for r in c.receivers:
            r.got[c.me()] = []
        c.begin[c.me()] = c.tick()

    def after(self, c, h, op, ref, what):
        sim = c.sim
        end = c.tick()
        ran = [0]
        want = []
        for ev in ref.events:
            if isinstance(ev[0], c.W.v.Validator):
                ran[0] += 1
            want.append(ev + (ran[0],))
        marks = c.marks[c.me()]
        for k, r in enumerate(c.receivers):
            got = r.got.get(c.me(), [])
            mine = [ev for ev in want if r.sender is None or
                    r.sender is ev[0]]
            pos = 0
            for ev in mine:
                j = ev[4]
                # the signal goes out between the end of this run and the
                # start of the next
                told = r.during(marks[j - 1][1] if j else c.begin[c.me()],
                                marks[j][0] if j < len(marks) else end)
                if pos < len(got) and told is not False and \
                        self.same(got[pos], ev):
                    pos += 1
                elif told is True:
                    break
                if told is None:
                    sim.probe('switched_amid')
            else:
                if pos == len(got):
                    sim.probe('signals', len(got))
                    continue
            sim.fail('signal', 'during %s receiver %d was told %s; what ran '
                     'is %s, and it was connected during %s of %s' % (
                         what, k, self.show(got), self.show(mine), r.spans,
                         [c.begin[c.me()]] + marks + [end]))

    def same(self, a, b):
        return a[0] is b[0] and a[1] is b[1] and a[2] is b[2] and \
            a[3] is b[3] and a[4] == b[4]

    def show(self, evs):
        return [(getattr(v, 's', {'id': v})['id'], e.fq_name(), r, n)
                for v, e, s, r, n in evs]

    def faulted(self, c, h, op, e, st, old, log, r, what):
        sim = c.sim
        if r[0] == 'ok':
            sim.fail('swallowed', '%s: an exception did not reach the '
                     'caller' % what)
        site = sim.cur.fault_site
        ran = [(v, x, st, res) for v, x, s, res, adds in log]
        for k, q in enumerate(c.receivers):
            if q.sender is not None or q.owner is not None:
                continue
            got = [g[:4] for g in q.got.get(c.me(), ())
                   if isinstance(g[0], c.W.v.Validator)]
            left = ran[:len(got)]
            if [1 for a, b in zip(got, left)
                    if not (a[0] is b[0] and a[1] is b[1] and a[3] is b[3])]:
                sim.fail('signal', 'failed %s: receiver %d was told what did '
                         'not run' % (what, k))
            missing = len(ran) - len(got)
            if not 0 <= missing <= (1 if site in ('receiver', 'received')
                                    else 0):
                sim.fail('signal', 'failed %s: receiver %d was told of %d '
                         'of %d runs' % (what, k, len(got), len(ran)))
        h.check('failed ' + what)
        for v, element, state, res, adds in log:
            pass
