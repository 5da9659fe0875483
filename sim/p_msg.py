# -*- coding: utf-8 -*-
"""V04, V05: messages, and validators that look at other elements."""
import __builtin__

import gen
import history as hi
import model
import p_common as pc
from base import Prop, Ctx, register, ntasks
from history import Hist
from model import N, ModelError, dv
from p_valid import canonv


def base_history(c, i):
    h = Hist(c, c.cls, c.spec, c.classes, c.specs)
    try:
        x = dv(c.plan['start'][i])
        n = N(c.spec)
        n.set(x)
    except ModelError:
        return h
    h.e.set(x)
    h.node = n
    return h


class JudgeProp(Prop):
    """Validation compared with what the model of the tree calls for."""
    CHUNK = 30
    QUICK = 64
    THOROUGH = 3000
    VALIDATE = 0.5
    FAULTS = 0.25
    OPS = (4, 11)

    def schema(self, rng):
        raise NotImplementedError

    def more(self, rng, p):
        pass

    def valop(self, rng, specs):
        return {}

    def gen(self, rng):
        n = ntasks(rng, 0.35, 3)
        spec = self.schema(rng)
        specs = hi.specs_of(hi.normalise(spec))
        p = {'schema': spec}
        self.more(rng, p)
        p['tasks'] = [[self.op_for(rng, specs)
                       for j in range(gen.some(rng, *self.OPS))]
                      for i in range(n)]
        p['start'] = [gen.value_for(rng, spec, 0.8) for i in range(n)]
        p['sched'] = gen.sched(rng, n)
        return p

    def op_for(self, rng, specs):
        if not gen.chance(rng, self.VALIDATE):
            return hi.any_op(rng, specs)
        op = {'o': 'validate', 's': 0 if gen.chance(rng, 0.8) else
              rng.randrange(len(specs)), 'w': rng.randrange(100)}
        op.update(self.valop(rng, specs))
        if gen.chance(rng, self.FAULTS):
            op['f'] = gen.cb_fault(rng, gen.pick(rng, [2, 5, 15]))
        return op

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.spec = hi.normalise(plan['schema'])
        c.specs = hi.specs_of(c.spec)
        c.classes = {}
        c.hist = {}
        W.signals.validator_validated._clear_state()
        self.prepare(c)
        c.cls = gen.build(c.spec, W, c.classes,
                          lambda s, k: self.attach(c, s, k))
        return c

    def do(self, c, i, op):
        if i not in c.hist:
            c.hist[i] = base_history(c, i)
        h = c.hist[i]
        if op['o'] != 'validate':
            getattr(self, 'do_' + op['o'], h.apply)(*(
                (c, h, op) if hasattr(self, 'do_' + op['o']) else (op,)))
            return
        self.validate(c, h, op)

    def validate(self, c, h, op):
        t = h.target(op)
        if t is None:
            return
        e, n = t
        sim = c.sim
        st = self.state(c, op)
        pairs = hi.pairs(h.e, h.node)
        old = [(list(x.errors), list(x.warnings)) for x, y in pairs]
        inside = set([id(x) for x, y in hi.pairs(e, n)])
        what = 'validate(%r) of %s' % (op, e.fq_name())
        want, exp = True, []
        for (x, y), (er, wa) in zip(pairs, old):
            if id(x) not in inside:
                exp.append((x, x.valid, er, wa))
                continue
            ok, msgs = self.expect(c, op, x, y)
            for k, t in msgs:
                lst = er if k == 'e' else wa
                if t not in lst:
                    lst.append(t)
                sim.probe('messages')
            want = want and ok
            exp.append((x, ok, er, wa))
        r = sim.op('validate', op.get('f'), lambda: e.validate(st))
        if sim.fault_hit:
            if r[0] == 'ok':
                sim.fail('swallowed', '%s: an exception did not reach the '
                         'caller' % what)
            h.check('failed ' + what)
            for (x, v, er, wa), (oe, ow) in zip(exp, old):
                # what the finished validators said, and no more
                if x.errors != er[:len(x.errors)] or \
                        x.warnings != wa[:len(x.warnings)]:
                    sim.fail('partial', 'failed %s left the messages %r, %r '
                             'on %s; without the failure %r, %r' % (
                                 what, x.errors, x.warnings, x.fq_name(),
                                 er, wa))
            sim.probe('failed')
            return self.validate(c, h, dict(op, f=None))
        if r[0] != 'ok':
            sim.fail('error', '%s raised %r' % (what, r[1]))
        for x, v, er, wa in exp:
            if x.errors != er or x.warnings != wa:
                sim.fail('messages', '%s: messages of %s are %r, %r; should '
                         'be %r, %r' % (what, x.fq_name(), x.errors,
                                        x.warnings, er, wa))
            if [m for m in x.errors if not isinstance(m, basestring)]:
                sim.fail('messages', 'messages are not text: %r' % x.errors)
            if bool(x.valid) != bool(v):
                sim.fail('valid', '%s: valid of %s is %r, should be %r' % (
                    what, x.fq_name(), x.valid, v))
        if bool(r[1]) != want:
            sim.fail('verdict', '%s returned %r, should be %r' % (
                what, r[1], want))
        h.check(what)
        sim.probe('validated')
        sim.probe('invalid' if not want else 'good')

    def expect(self, c, op, x, y):
        """(valid, messages) of an element, of its model node *y*."""
        s = y.spec
        if y.is_empty() and s.get('opt'):
            return True, []
        if not s.get('val'):
            return not y.is_empty(), []
        msgs = []
        for d in s['val']:
            ok, m = self.judge(c, op, x, y, d)
            msgs += m
            if not ok:
                return False, msgs
        return True, msgs

    def state(self, c, op):
        return None

    def finish(self, c):
        for i in sorted(c.hist):
            c.hist[i].check('the end')


# -- V04 --------------------------------------------------------------------

def translatable(text):
    # catalogs do not change numerals
    return isinstance(text, basestring) and not text.isdigit()


class Translator(object):

    def __init__(self, tag, sim):
        self.tag = tag
        self.sim = sim

    def ugettext(self, text):
        self.sim.cb('ugettext')
        return u'%s:%s' % (self.tag, text) if translatable(text) else text

    def ungettext(self, single, plural, n):
        self.sim.cb('ungettext')
        return u'%s/%s:%s' % (self.tag, n, single if n == 1 else plural)


class Getter(object):
    """A state with item access and attributes."""

    def __init__(self, items, attrs):
        self._items = items
        for k, v in attrs.items():
            setattr(self, k, v)

    def __getitem__(self, k):
        return self._items[k]


class Plain(object):
    pass


KEYS = [u'label', u'name', u'u', u'value', u'limit', u'who', u'extra', u'n',
        u'skey', u'note']
COMMON = [u'label', u'name', u'limit', u'who', u'note']


def template(rng, keys):
    t = gen.pick(rng, [u'', u'Err ', u'100%% ', u'\xe9 '])
    for i in range(gen.some(rng, 1, 4)):
        t += u'%%(%s)s' % gen.pick(rng, keys) + gen.pick(rng, [u'', u' ',
                                                               u'; '])
    return t


def message(rng, keys, depth=0):
    r = rng.random()
    if r < 0.45:
        return {'t': template(rng, keys)}
    if r < 0.8:
        return {'p': [template(rng, keys), template(rng, keys),
                      gen.pick(rng, [u'limit', u'limit', u'note', u'nokey']
                               + ([u'n'] if u'n' in keys else []))]}
    return {'c': message(rng, keys, 1)} if depth == 0 else \
        {'t': template(rng, keys)}


@register
class V04(JudgeProp):
    ID = 'V04'
    RULE = ('Validators with random templates (plain, pluralised, made by '
            'functions) shared by elements and tasks; substitutions from '
            'arguments, state items and attributes, the validator and the '
            'element; translators in any mix of state, elements, schemas, '
            'ancestors and builtins; 4 to 11 validations and changes by 1 '
            'to 3 tasks, some failing in a message function or translator; '
            'messages compared with an independent expansion; non-trivial: '
            'at least 3 messages.')

    def nontrivial(self, plan, sim):
        return sim.probes.get('messages', 0) >= 3

    def schema(self, rng):
        s = gen.top_schema(rng, gen.pick(rng, [1, 1, 2]), width=3)
        nv = gen.some(rng, 1, 4)
        self.nv = nv
        for t in gen.walk(s):
            if gen.chance(rng, 0.7):
                t['val'] = [rng.randrange(nv)
                            for i in range(gen.some(rng, 1, 2))]
            if gen.chance(rng, 0.25):
                t['lab'] = gen.pick(rng, [u'Label', u'L\xe4bel'])
            if gen.chance(rng, 0.2):
                t['tr'] = {gen.pick(rng, ['ugettext', 'ungettext']):
                           gen.pick(rng, [u'k1', u'k2'])}
        return s

    def more(self, rng, p):
        p['validators'] = []
        for i in range(self.nv):
            keys = list(COMMON)
            info = [k for k in (u'extra', u'n', u'who', u'label')
                    if gen.chance(rng, 0.3)]
            keys += info
            msg = message(rng, keys)
            p['validators'].append({
                'limit': gen.pick(rng, [0, 1, 1, 2, 5, u'1', u'1', u'2',
                                        u'0', 1.0]),
                'who': gen.pick(rng, [u'v%d' % i, u'', u'a b']),
                'note': gen.pick(rng, [1, None, 2, u'1', True]),
                'msg': msg, 'info': info,
                'how': gen.pick(rng, ['key', 'key', 'message']),
                'list': gen.pick(rng, ['e', 'e', 'w']),
                'ret': gen.pick(rng, [True, True, False])})
        p['builtin'] = {}
        if gen.chance(rng, 0.25):
            p['builtin'][gen.pick(rng, ['ugettext', 'ungettext'])] = u'bi'

    def valop(self, rng, specs):
        kind = gen.pick(rng, [None, 'attr', 'attr', 'dict', 'dict', 'both',
                              'str', 'list'])
        items, attrs, tr = {}, {}, {}
        for k in (u'who', u'limit', u'label', u'note'):
            if gen.chance(rng, 0.15):
                items[k] = gen.pick(rng, [1, 3, u'1', u'3']) if k in (
                    u'limit', u'note') else u'si'
            if gen.chance(rng, 0.15):
                attrs[k] = gen.pick(rng, [1, 4, u'1', u'4']) if k in (
                    u'limit', u'note') else u'sa'
        for k in ('ugettext', 'ungettext'):
            if gen.chance(rng, 0.4):
                tr[k] = [gen.pick(rng, ['item', 'attr']),
                         gen.pick(rng, [u'de', u'fr'])]
        return {'st': {'kind': kind, 'items': items, 'attrs': attrs,
                       'tr': tr}}

    def op_for(self, rng, specs):
        if gen.chance(rng, 0.08):
            return {'o': 'place', 's': rng.randrange(len(specs)),
                    'w': rng.randrange(100),
                    'what': gen.pick(rng, ['ugettext', 'ungettext']),
                    'tag': gen.pick(rng, [None, u'e1', u'e2'])}
        return JudgeProp.op_for(self, rng, specs)

    def run(self, plan, sim, W):
        for k, tag in plan['builtin'].items():
            setattr(__builtin__, k, getattr(Translator(tag, sim), k))
        try:
            Prop.run(self, plan, sim, W)
        finally:
            for k in plan['builtin']:
                delattr(__builtin__, k)

    def prepare(self, c):
        W, sim = c.W, c.sim

        class Msg(W.v.Validator):
            d = None
            limit = 0
            who = u''
            note = None
            text = None

            def validate(self, element, state):
                d = self.d
                sim.cb('validator')
                info = {}
                for k in d['info']:
                    info[str(k)] = V04.info(k, element)
                kw = dict(info)
                if d['how'] == 'key':
                    kw['key'] = 'text'
                else:
                    kw['message'] = self.text
                f = self.note_error if d['list'] == 'e' else \
                    self.note_warning
                r = f(element, state, **kw)
                if r is not False:
                    sim.fail('result', 'note_error returned %r' % (r,))
                return d['ret'] or r

        def real(m):
            if 't' in m:
                return m['t']
            if 'p' in m:
                return tuple(m['p'])
            inner = real(m['c'])

            def make(element, state):
                sim.cb('message')
                return inner
            return make
        c.validators = []
        for d in c.plan['validators']:
            v = Msg(limit=d['limit'], who=d['who'], note=d['note'],
                    text=real(d['msg']))
            v.d = d
            c.validators.append(v)

    @staticmethod
    def info(k, element):
        """Depends on the element."""
        n = element.name or u'-'
        if k == u'n':
            return len(n)
        return u'%s of %s' % (k, n)

    def attach(self, c, s, cls):
        if s.get('val'):
            cls = cls.validated_by(*[c.validators[i] for i in s['val']])
        if s.get('lab'):
            cls = cls.using(label=s['lab'])
        for k, tag in (s.get('tr') or {}).items():
            cls = cls.using(**{str(k): getattr(Translator(tag, c.sim), k)})
        return cls

    def do_place(self, c, h, op):
        t = h.target(op)
        if t is None:
            return
        e = t[0]
        if op['tag'] is None:
            e.__dict__.pop(op['what'], None)
            e.__dict__.pop('_tag_' + op['what'], None)
        else:
            setattr(e, op['what'],
                    getattr(Translator(op['tag'], c.sim), op['what']))
            e.__dict__['_tag_' + op['what']] = op['tag']

    def state(self, c, op):
        s = op['st']
        k = s['kind']
        if k is None:
            return None
        if k == 'str':
            return u'state'
        if k == 'list':
            return [1, 2]
        items, attrs = dict(s['items']), dict(s['attrs'])
        for f, (where, tag) in s['tr'].items():
            fn = getattr(Translator(tag, c.sim), f)
            if k == 'dict' or k == 'both' and where == 'item':
                items[f] = fn
            else:
                attrs[f] = fn
        if k == 'dict':
            return items
        if k == 'both':
            return Getter(items, attrs)
        p = Plain()
        for a, v in attrs.items():
            setattr(p, a, v)
        return p

    # the oracle

    def tag(self, c, op, x, y, f):
        """Whose *f* is used: its tag, or None."""
        s = op['st']
        if s['kind'] in ('attr', 'dict', 'both') and f in s['tr']:
            return s['tr'][f][1]
        e, n = x, y
        chain = []
        while n is not None:
            chain.append(n)
            n = n.parent
        real = [x] + [p for p in x.parents
                      if not isinstance(p, c.W.schema.Slot)]
        for e, n in zip(real, chain):
            t = e.__dict__.get('_tag_' + f)
            if t:
                return t
            t = (n.spec.get('tr') or {}).get(f)
            if t:
                return t
        return c.plan['builtin'].get(f)

    def judge(self, c, op, x, y, i):
        d = c.plan['validators'][i]
        s = op['st']
        ug = self.tag(c, op, x, y, 'ugettext')
        un = self.tag(c, op, x, y, 'ungettext')

        def tr(t):
            return u'%s:%s' % (ug, t) if ug and translatable(t) else t

        def raw(k):
            if k in d['info']:
                return V04.info(k, x)
            if s['kind'] in ('dict', 'both') and k in s['items']:
                return s['items'][k]
            if s['kind'] in ('attr', 'both') and k in s['attrs']:
                return s['attrs'][k]
            if k in ('limit', 'who', 'note'):
                return d[k]
            if k == 'name':
                return y.name
            if k == 'label':
                return y.spec.get('lab') or y.name
            raise KeyError(k)

        class Map(object):

            def __getitem__(self, k):
                return tr(raw(k))
        m = d['msg']
        while 'c' in m:
            m = m['c']
        if 't' in m:
            t = tr(m['t'])
        else:
            one, many, key = m['p']
            try:
                n = raw(key)
                n = n if n is None else int(n)
            except KeyError:
                n = key
            if un:
                t = u'%s/%s:%s' % (un, n, one if n == 1 else many)
            else:
                t = tr(one if n == 1 else many)
        return d['ret'], [(d['list'], t % Map())]


# -- V05 --------------------------------------------------------------------

def fmt(v):
    return u'%s' % (v,)


@register
class V05(JudgeProp):
    ID = 'V05'
    VALIDATE = 0.45
    RULE = ('NotDuplicated (plain and with comparators), HasAtLeast, '
            'HasAtMost, HasBetween, ValuesEqual, UnisEqual and MapEqual, '
            'instances shared by fields and tasks, on random trees; 4 to 11 '
            'validations and changes by 1 to 3 tasks, some failing in a '
            'comparator or transform; verdicts and messages compared with '
            'the model tree; non-trivial: both verdicts were seen and a '
            'message.')

    def nontrivial(self, plan, sim):
        p = sim.probes
        return bool(p.get('messages') and p.get('validated', 0) > 1)

    def length(self, rng):
        a = gen.some(rng, 0, 2)
        return gen.pick(rng, [['HasAtLeast', a], ['HasAtMost', a],
                              ['HasBetween', a, a + gen.some(rng, 0, 2)],
                              ['HasBetween', a, a]])

    def dup(self, rng):
        d = ['NotDuplicated', gen.pick(rng, ['eq', 'eq', 'u', 'never',
                                             'lighter', 'heavier'])]
        if gen.chance(rng, 0.4):
            d.append('positions')
        return d

    def schema(self, rng):
        s = gen.top_schema(rng, gen.pick(rng, [1, 2, 2]), width=4)
        if gen.chance(rng, 0.5):
            # a field to be compared with, twice
            names = [u'p1', u'p2', u'p3']
            k = gen.scalar_spec(rng, None)
            top = [x for x in gen.walk(s) if x['k'] in ('Dict', 'Form')]
            if top:
                t = gen.pick(rng, top)
                t['of'] = t['of'] + [dict(k, n=n) for n in
                                     names[:gen.some(rng, 2, 3)]]
        self.decorate(rng, hi.normalise(s), s)
        return s

    def decorate(self, rng, norm, s, up=None):
        k = s['k']
        v = []
        if k in model.SEQS and gen.chance(rng, 0.8):
            v.append(self.length(rng))
        if up is not None and up['k'] in model.SEQS and \
                len(up['of']) == 1 and gen.chance(rng, 0.7):
            v.insert(rng.randrange(len(v) + 1), self.dup(rng))
        if k in ('Dict', 'Form'):
            by = {}
            for p, t in self.paths(s):
                by.setdefault(t['k'], []).append(p)
            some = [x for x in by.values() if len(x) > 1]
            if some and gen.chance(rng, 0.85):
                x = list(gen.pick(rng, some))
                rng.shuffle(x)
                v.append([gen.pick(rng, ['ValuesEqual', 'UnisEqual',
                                         'MapEqual'])] +
                         x[:gen.some(rng, 2, 3)])
        if k in model.SCALARS and up is not None and \
                up['k'] in ('Dict', 'Form'):
            sib = [t for t in up['of'] if t['k'] == k and t is not s]
            if sib and gen.chance(rng, 0.4):
                v.append(['ValuesEqual', ['.'],
                          ['..', gen.pick(rng, sib)['n']]])
        if v:
            s['val'] = v
        if gen.chance(rng, 0.2):
            s['lab'] = gen.pick(rng, [u'Lab', u'L\xe4b'])
        for t in s.get('of') or ():
            self.decorate(rng, None, t, s)

    def paths(self, s, pre=()):
        out = []
        for t in s['of']:
            if t['k'] in model.SCALARS:
                out.append((list(pre) + [t['n']], t))
            elif t['k'] in ('Dict', 'Form'):
                out += self.paths(t, tuple(pre) + (t['n'],))
        return out

    def prepare(self, c):
        c.cache = {}

    def make(self, c, d):
        W, sim = c.W, c.sim
        key = repr(d)
        if key in c.cache:
            return c.cache[key]
        n = d[0]
        if n == 'NotDuplicated':
            kw = {}
            if d[1] != 'eq':
                def comparator(a, b):
                    sim.cb('comparator')
                    if d[1] == 'lighter':
                        return weight(W, a) < weight(W, b)
                    if d[1] == 'heavier':
                        return weight(W, a) > weight(W, b) + 1
                    return d[1] == 'u' and a.u == b.u
                kw['comparator'] = comparator
            if len(d) > 2:
                kw['failure'] = u'%(label)s %(position)s in ' \
                    u'%(container_label)s'
            v = W.v.NotDuplicated(**kw)
        elif n == 'HasAtLeast':
            v = W.v.HasAtLeast(minimum=d[1])
        elif n == 'HasAtMost':
            v = W.v.HasAtMost(maximum=d[1])
        elif n == 'HasBetween':
            v = W.v.HasBetween(minimum=d[1], maximum=d[2])
        else:
            ps = [u'/'.join([x if x in (u'.', u'..') else pc.escape(x)
                             for x in p]) for p in d[1:]]
            kw = {}
            if n == 'MapEqual':
                def transform(el):
                    sim.cb('transform')
                    return len(el.u)
                kw['transform'] = transform
            v = getattr(W.v, n)(*ps, **kw)
        c.cache[key] = v
        return v

    def attach(self, c, s, cls):
        if s.get('val'):
            cls = cls.validated_by(*[self.make(c, d) for d in s['val']])
        if s.get('lab'):
            cls = cls.using(label=s['lab'])
        return cls

    def label(self, n):
        if isinstance(n, N):
            n = n.spec
        return fmt(n.get('lab') or n.get('n'))

    def judge(self, c, op, x, y, d):
        n = d[0]
        if n == 'NotDuplicated':
            same = hi.same
            if d[1] == 'u':
                same = lambda a, b: u_of(a) == u_of(b)
            elif d[1] == 'never':
                same = lambda a, b: False
            elif d[1] == 'lighter':
                same = lambda a, b: mweight(a) < mweight(b)
            elif d[1] == 'heavier':
                same = lambda a, b: mweight(a) > mweight(b) + 1
            bad = False
            pos = 1
            for k in y.parent.kids:
                if k is y:
                    break
                pos += 1
                if same(y, k):
                    bad = True
            if bad and len(d) > 2:
                return False, [('e', u'%s %d in %s' % (
                    self.label(y), pos, self.label(y.parent)))]
            if bad:
                return False, [('e', u'%s may not be repeated within %s.' % (
                    self.label(y), self.label(y.parent)))]
            return True, []
        if n.startswith('Has'):
            k = len(y.kids)
            child = self.label(y.member_spec())
            me = self.label(y)
            if n == 'HasAtLeast':
                if k >= d[1]:
                    return True, []
                t = u'%s must contain at least one %s' % (me, child) \
                    if d[1] == 1 else \
                    u'%s must contain at least %s %ss' % (me, d[1], child)
            elif n == 'HasAtMost':
                if k <= d[1]:
                    return True, []
                t = u'%s must contain at most one %s' % (me, child) \
                    if d[1] == 1 else \
                    u'%s must contain at most %s %ss' % (me, d[1], child)
            else:
                if d[1] <= k <= d[2]:
                    return True, []
                if d[1] == d[2]:
                    t = u'%s must contain exactly one %s' % (me, child) \
                        if d[1] == 1 else \
                        u'%s must contain exactly %s %ss' % (me, d[1], child)
                else:
                    t = u'%s must contain at least %s and at most %s %s' % (
                        me, d[1], d[2], child) + (u'' if d[2] == 1 else u's')
            return False, [('e', t)]
        els = []
        for p in d[1:]:
            e = y
            for k in p:
                if k == u'..':
                    e = e.parent
                elif k != u'.':
                    e = e.fields[k]
            els.append(e)
        if n == 'ValuesEqual':
            ok = [1 for e in els if not (e.v == els[0].v)]
        elif n == 'UnisEqual':
            ok = [1 for e in els if e.u() != els[0].u()]
        else:
            ok = [1 for e in els if len(e.u()) != len(els[0].u())]
        if not ok:
            return True, []
        return False, [('e', u'%s and %s do not match.' % (
            u', '.join([self.label(e) for e in els[:-1]]),
            self.label(els[-1])))]


def u_of(n):
    return hi.fullu(n)


def weight(W, e):
    fl = W.fl
    if isinstance(e, (fl.List, fl.Array, fl.Dict)) and not isinstance(
            e, (fl.MultiValue, W.schema.JoinedString, W.schema.Compound)):
        return 1 + sum([weight(W, x) for x in e.children])
    return len(e.u)


def mweight(n):
    if n.k in model.SEQS and n.k not in ('MultiValue', 'JoinedString'):
        return 1 + sum([mweight(x) for x in n.kids])
    if n.fields and n.k not in model.COMPS or n.k == 'SparseDict':
        return 1 + sum([mweight(x) for x in n.fields.values()])
    return len(n.u())
