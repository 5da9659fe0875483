# -*- coding: utf-8 -*-
"""T03: a scalar's value and u change in tandem."""
import datetime
import decimal

import core
import gen
import model
import p_common as pc
from base import Prop, Ctx, register, ntasks
from model import dv

MORE = ('Long', 'Decimal', 'CInt', 'EnumInt', 'Custom', 'Fmt')
VALUES = [None, None, True, False, 0, 1, -1, 7, 42, 10, 11, 2.5, -0.0, u'',
          u'x', u' pad ', u'42', u' -7 ', u'3.5', u'nan', u'inf', u'1e400',
          u'sNaN', u'1e5', u'on', u'off', u'true', u'yes', u'no', u'red',
          u'blue', u'2', u'2001-02-03', u' 1999-12-31 ', u'2001-02-31',
          u'2001-02-03\n', u'12:30:59', u'24:00:00', u'2001-02-03 04:05:06',
          u'0000-00-00', u'\xfcber', u'\u0663', u'k:v', u'bad:', u'a:b:c',
          {'b': u'raw'}, {'b': u'\xff\xfe'}, {'b': u'42'}, {'l': []},
          {'l': [1, 2]}, {'t': [1]}, {'d': [[u'a', 1]]}, {'bad': 0},
          {'date': [1999, 12, 31]}, {'dt': [2001, 2, 3, 4, 5, 6]},
          {'time': [23, 59, 59]}, {'odd': 'big'}, {'odd': 'huge'},
          {'odd': 'nan'}, {'odd': 'dec'}, {'odd': 'obj'}, {'odd': 'sub'},
          {'odd': 'bytes'}, {'odd': 'el'}, {'odd': 'fracdate'}]


class Obj(object):

    def __unicode__(self):
        return u'obj\xe9'

    def __str__(self):
        return 'obj'


class Bytes(object):
    """Its text is not ASCII."""

    def __str__(self):
        return '\xff\xfe'


class SubStr(unicode):
    pass


def value_of(x, W):
    if isinstance(x, dict) and 'odd' in x:
        o = x['odd']
        if o == 'big':
            return 2 ** 70
        if o == 'huge':
            return 10 ** 400
        if o == 'nan':
            return float('nan')
        if o == 'dec':
            return decimal.Decimal('1.50')
        if o == 'obj':
            return Obj()
        if o == 'sub':
            return SubStr(u' 42 ')
        if o == 'bytes':
            return Bytes()
        if o == 'el':
            return W.fl.Integer(5)
        return datetime.datetime(2001, 2, 3, 4, 5, 6, 789)
    return dv(x)


def same(a, b):
    if type(a) is not type(b) and not (
            isinstance(a, basestring) and isinstance(b, basestring)):
        if not (isinstance(a, (int, long)) and isinstance(b, (int, long))
                and not isinstance(a, bool) and not isinstance(b, bool)):
            return False
    if isinstance(a, unicode):
        return unicode(a) == unicode(b)
    return a is b or repr(a) == repr(b)


def text(v):
    """The text of a rejected value, or None if it has none."""
    if v is None:
        return u''
    if isinstance(v, str):
        try:
            return unicode(v)
        except UnicodeDecodeError:
            return unicode(v, errors='replace')
    try:
        return unicode(v)
    except Exception:
        return None


@register
class T03(Prop):
    ID = 'T03'
    QUICK = 64
    CHUNK = 40
    THOROUGH = 4000
    RULE = ('Scalars of every type (and custom ones), each assigned 4 to 14 '
            'values of all types by 1 to 3 tasks on elements of the same '
            'classes, with adapt, serialize and valid_value failing or '
            'assigning to another element; non-trivial: an assignment that '
            'succeeded, one that was refused, and a fault or preemption.')

    def nontrivial(self, plan, sim):
        p = sim.probes
        return bool(p.get('true') and p.get('false') and
                    (sim.fired or sim.preempts))

    def spec(self, rng, i):
        if gen.chance(rng, 0.4):
            k = gen.pick(rng, list(MORE))
            s = {'k': k, 'n': gen.pick(rng, [u's', None])}
        else:
            s = gen.scalar_spec(rng, gen.pick(rng, [u's', None]))
        if s['k'] in ('Date', 'Time', 'DateTime') and gen.chance(rng, 0.2):
            s['strip'] = False
        if s['k'] in ('Long', 'Decimal', 'Float') and gen.chance(rng, 0.3):
            s['signed'] = False
        s['hook'] = gen.pick(rng, [None, 'call', 'call', 'nest'])
        if gen.chance(rng, 0.3):
            s['def'] = gen.pick(rng, [x for x in VALUES
                                      if not isinstance(x, dict)])
        return s

    def value(self, rng, s):
        if s['k'] in model.SCALARS and gen.chance(rng, 0.5):
            return gen.value_for(rng, s, 0.8)
        return gen.pick(rng, VALUES)

    def gen(self, rng):
        n = ntasks(rng, 0.4, 3)
        specs = [self.spec(rng, i) for i in range(gen.some(rng, 1, 3))]
        tasks = []
        for i in range(n):
            ops = []
            for j in range(gen.some(rng, 4, 14)):
                k = rng.randrange(len(specs))
                op = {'s': k, 'e': rng.randrange(2),
                      'o': gen.pick(rng, ['set'] * 6 + ['flat', 'new',
                                                        'default']),
                      'x': self.value(rng, specs[k])}
                if gen.chance(rng, 0.3):
                    op['f'] = gen.cb_fault(rng, 4)
                ops.append(op)
            tasks.append(ops)
        return {'specs': specs, 'tasks': tasks, 'sched': gen.sched(rng, n)}

    # -- classes -----------------------------------------------------------

    def base(self, s, W):
        fl, k = W.fl, s['k']
        sim_ = [None]
        if k in model.SCALARS:
            b = dict(s)
            b.pop('def', None)
            cls = gen.build(b, W)
            if 'strip' in s and k != 'String':
                cls = cls.using(strip=s['strip'])
            return cls
        if k in ('Long', 'Decimal'):
            cls = getattr(fl, k)
            if 'signed' in s:
                cls = cls.using(signed=s['signed'])
        elif k == 'Fmt':
            cls = fl.Integer.using(format=u'<%05d>')
        elif k == 'CInt':
            cls = fl.Constrained.using(child_type=fl.Integer)
        elif k == 'EnumInt':
            cls = fl.Enum.using(child_type=fl.Integer).valued(1, 2, 42)
        else:
            Adaptation = W.exc.AdaptationError

            class Pair(fl.Scalar):

                def adapt(self, value):
                    if value is None or isinstance(value, tuple):
                        return value
                    try:
                        a, b = value.split(u':')
                    except (AttributeError, ValueError, TypeError):
                        raise Adaptation()
                    return (a, b)

                def serialize(self, value):
                    return u':'.join(value)
            cls = Pair
        if s.get('n'):
            cls = cls.named(s['n'])
        return cls

    def hooked(self, cls, s, c):
        sim = c.sim

        def nest(self):
            if s['hook'] == 'nest' and not c.nested.get(id(sim.cur)):
                c.nested[id(sim.cur)] = True
                try:
                    other = new[0]()
                    other.set(u'7')
                    other.set(u'zz')
                finally:
                    c.nested.pop(id(sim.cur))

        def adapt(self, value):
            sim.cb('adapt')
            nest(self)
            r = super(new[0], self).adapt(value)
            sim.cb('adapted')
            return r

        def serialize(self, value):
            sim.cb('serialize')
            r = super(new[0], self).serialize(value)
            sim.cb('serialized')
            return r

        def valid_value(element, value):
            sim.cb('valid')
            return value in (0, 1, 42, None)
        attrs = {}
        if s['hook']:
            attrs = {'adapt': adapt, 'serialize': serialize}
        if s['k'] == 'CInt':
            attrs['valid_value'] = staticmethod(valid_value)
        new = [cls]
        if attrs:
            new[0] = type(cls)('Hooked', (cls,), attrs)
        if 'def' in s:
            return new[0].using(default=dv(s['def']))
        return new[0]

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.nested = {}
        c.cls = [self.hooked(self.base(s, W), s, c) for s in plan['specs']]
        c.els = [[[k(), k()] for k in c.cls] for t in plan['tasks']]
        return c

    # -- operations --------------------------------------------------------

    def do(self, c, i, op):
        sim, k = c.sim, op['s']
        s = c.plan['specs'][k]
        cls = c.cls[k]
        e = c.els[i][k][op['e']]
        x = value_of(op['x'], c.W)
        before = (e.value, e.u)
        o = op['o']
        what = '%s %s(%r) on %s' % (s['k'], o, op['x'],
                                    [pc.canon(v) for v in before])
        f = op.get('f')
        made = []
        if o == 'set':
            r = sim.op('set', f, e.set, x)
        elif o == 'flat':
            ps = [(u'zz', u'no'), (e.name, x), (e.name, u'late')]
            r = sim.op('flat', f, e.set_flat, ps)
        elif o == 'default':
            r = sim.op('default', f, e.set_default)
            if 'def' not in s:
                x = None
            else:
                x = dv(s['def'])
        else:
            r = sim.op('new', f, lambda: made.append(cls(x)))
            if made:
                e = made[0]
            else:
                e = cls()
                before = (e.value, e.u)
        now = (e.value, e.u)
        # what it should have been, on a new element and without the fault
        t = cls()
        try:
            want = t.set(x)
        except Exception, err:
            want = err
        if sim.fault_hit:
            sim.probe('faulted')
            if r[0] == 'ok':
                sim.fail('swallowed', '%s: an exception in a callback did '
                         'not reach the caller' % what)
        elif isinstance(want, Exception):
            if r[0] == 'ok':
                sim.fail('state', '%s worked, a new element raises %r' % (
                    what, want))
            if type(r[1]) is not type(want):
                sim.fail('state', '%s raised %r, a new element raises %r' % (
                    what, r[1], want))
        if r[0] != 'ok':
            if not isinstance(want, Exception) and not sim.fault_hit:
                sim.fail('state', '%s raised %r, a new element takes it' % (
                    what, r[1]))
            if not (same(now[0], before[0]) and same(now[1], before[1])):
                sim.fail('torn', '%s failed and left value %r, u %r' % (
                    what, now[0], now[1]))
            return
        if o == 'set' and bool(r[1]) != bool(want):
            sim.fail('state', '%s returned %r, on a new element %r' % (
                what, r[1], want))
        if not (same(now[0], t.value) and same(now[1], t.u)):
            sim.fail('state', '%s gave value %r, u %r; a new element has '
                     '%r, %r' % (what, now[0], now[1], t.value, t.u))
        if want:
            sim.probe('true')
            v = cls().adapt(x)
            if not same(now[0], v):
                sim.fail('value', '%s: value %r, x adapts to %r' % (
                    what, now[0], v))
            u = u'' if v is None else cls().serialize(v)
            if not isinstance(now[1], unicode) or not same(now[1], u):
                sim.fail('u', '%s: u %r, value serialises to %r' % (
                    what, now[1], u))
        else:
            sim.probe('false')
            try:
                cls().adapt(x)
                sim.fail('refused', '%s returned False, adapt takes %r' % (
                    what, x))
            except c.W.exc.AdaptationError:
                pass
            if now[0] is not None:
                sim.fail('value', '%s returned False and left value %r' % (
                    what, now[0]))
            u = text(x)
            if u is not None and not same(now[1], u):
                sim.fail('u', '%s returned False and left u %r, not %r' % (
                    what, now[1], u))
        # against the model
        if s['k'] in model.SCALARS and tame(op['x'] if o != 'default'
                                            else s.get('def'), s):
            m = model.N(dict(s, n=None))
            ok = m.set(x)
            if bool(want) != bool(ok) or not model.same_value(now[0], m.v) \
                    or now[1] != m.ustr:
                sim.fail('model', '%s: %r value %r, u %r; expected %r %r %r'
                         % (what, want, now[0], now[1], ok, m.v, m.ustr))
            sim.probe('modelled')

    def finish(self, c):
        # elements keep their own state
        for i, els in enumerate(c.els):
            for k, pool in enumerate(els):
                for e in pool:
                    if e.value is not None and not isinstance(e.u, unicode):
                        c.sim.fail('u', 'u is %r' % (e.u,))


def tame(x, s):
    """Does the model speak about this value?"""
    if s['k'] in ('Date', 'DateTime', 'Time') and (
            s.get('strip') is False or isinstance(x, dict) and 'dt' in x):
        return False
    if isinstance(x, dict):
        return x.keys()[0] in ('b', 'date', 'time') and \
            s['k'] in ('String', 'Date', 'Time', 'Integer')
    if isinstance(x, float) or x in (u'nan', u'inf', u'1e400', u'1e5',
                                     u'sNaN'):
        return s['k'] in ('String', 'Boolean')
    return True
