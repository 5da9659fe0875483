# -*- coding: utf-8 -*-
"""T09: what the scalar types read and print."""
import datetime
import decimal
import re

import gen
import p_common as pc
from base import Prop, Ctx, register, ntasks

KINDS = ['String', 'Integer', 'Long', 'Float', 'Decimal', 'Boolean', 'Date',
         'Time', 'DateTime', 'Enum', 'EnumInt', 'Constrained', 'String',
         'Integer', 'Boolean', 'Date', 'DateTime', 'DayFirst', 'MonthFirst',
         'DayFirst', 'MonthFirst', 'Boolean', 'Minutes']
SPACE = [u'', u'', u'', u' ', u'\t', u'  ', u'\n', u'\xa0', u'\u2003']
DIGITS = [u'0', u'1', u'2', u'5', u'9', u'10', u'12', u'007', u'99', u'-1',
          u'-0', u'+5', u'1.5', u'-2.25', u'.5', u'5.', u'1e3', u'1,000',
          u'0x1f', u'1_0', u'', u'-', u'--1', u'1 2', u'3000000000',
          u'99999999999999999999', u'-3000000000', u'\u0663', u'\xb2',
          u'1L', u'1j', u'True', u'None', u'1e', u'1/2', u'+', u'0.1',
          u'123456.789', u'1e-7', u'0b1', u'0o7', u'010']
WORDS = [u'on', u'off', u'true', u'True', u'TRUE', u'false', u'False', u'1',
         u'0', u'yes', u'no', u'y', u'ja', u'nein', u'x', u'T', u'2', u'ON']
NATIVE = [None, True, False, 0, 1, 7, -3, 2.5, -0.5, 10 ** 12, {'b': u'raw'}, {'b': u'7'},
          {'b': u'\xff'}, {'dec': u'1.50'}, {'dec': u'-3'}, {'l': 1},
          {'date': [2001, 2, 3]}, {'time': [4, 5, 6]}, {'t': 1}, {'o': 1},
          {'dt': [2001, 2, 3, 4, 5, 6]}, {'f': u'nan'}]
OPTS = [u'red', u'blue', u'', u'r', u'RED', u'1', u'x y']


def native(x):
    if isinstance(x, dict):
        k = x.keys()[0]
        v = x[k]
        if k == 'dec':
            return decimal.Decimal(v)
        if k == 'l':
            return [1]
        if k == 't':
            return (1, 2)
        if k == 'o':
            return object
        if k == 'date':
            return datetime.date(*v)
        if k == 'time':
            return datetime.time(*v)
        if k == 'dt':
            return datetime.datetime(*v)
        if k == 'f':
            return 1e300
    return x


class No(Exception):
    pass


def number(s, x, typ):
    if x is None:
        return None
    if isinstance(x, basestring):
        x = x.strip()
    try:
        n = typ(x)
    except (ValueError, TypeError, ArithmeticError):
        raise No()
    if s.get('signed') is False and n < 0:
        raise No()
    return n


def ascii_digits(t, n):
    return len(t) == n and not [ch for ch in t if ch not in u'0123456789']


def fields(t, shape):
    """Numbers at the places of a fixed-width shape, or No."""
    if len(t) != len(shape):
        raise No()
    out, at, order = [], None, u''
    for ch, p in zip(t, shape):
        if p in u'YMDhms':
            if ch not in u'0123456789':
                raise No()
            if p != at:
                out.append(u'')
                order += p
            out[-1] += ch
        elif ch != p:
            raise No()
        at = p
    return [int(n) for _, n in sorted(zip(
        [u'YMDhms'.index(p) for p in order], out))]


SHAPES = {'Date': (u'YYYY-MM-DD', datetime.date),
          'Time': (u'hh:mm:ss', datetime.time),
          'DateTime': (u'YYYY-MM-DD hh:mm:ss', datetime.datetime),
          # subclasses with their own pattern and format
          'DayFirst': (u'DD/MM/YYYY', datetime.date),
          'MonthFirst': (u'MM/DD/YYYY', datetime.date),
          'Minutes': (u'hh:mm', datetime.time)}
OWN = {
    'DayFirst': ('Date', u'^(?P<day>[0-9]{2})/(?P<month>[0-9]{2})/'
                 u'(?P<year>[0-9]{4})$',
                 u'%(day)02i/%(month)02i/%(year)04i', None),
    'MonthFirst': ('Date', u'^(?P<month>[0-9]{2})/(?P<day>[0-9]{2})/'
                   u'(?P<year>[0-9]{4})$',
                   u'%(month)02i/%(day)02i/%(year)04i', None),
    'Minutes': ('Time', u'^(?P<hour>[0-9]{2}):(?P<minute>[0-9]{2})$',
                u'%(hour)02i:%(minute)02i', (u'hour', u'minute')),
}


def read(s, x):
    """The native value of *x* for a scalar, or No."""
    k = s['k']
    if k in ('String', 'Enum'):
        if x is None:
            v = None
        else:
            try:
                v = unicode(x)
            except UnicodeDecodeError:
                raise No()
            if s.get('strip', True):
                v = v.strip()
        if k == 'Enum' and v not in s['opts']:
            raise No()
        return v
    if k in ('Integer', 'Long'):
        return number(s, x, int)
    if k == 'Float':
        return number(s, x, float)
    if k == 'Decimal':
        return number(s, x, decimal.Decimal)
    if k in ('EnumInt', 'Constrained'):
        v = number({}, x, int)
        if k == 'EnumInt' and v not in (1, 2, 5, 99) or \
                k == 'Constrained' and not (v is not None and 0 <= v <= 9):
            raise No()
        return v
    if k == 'Boolean':
        if not isinstance(x, basestring):
            return True if x else False
        yes = list(s.get('yes') or (u'on', u'true', u'True', u'1'))
        no = list(s.get('no') or (u'off', u'false', u'False', u'0', u''))
        try:
            if unicode(x) in yes + [s.get('true', u'1')]:
                return True
            if unicode(x) in no + [s.get('false', u'')]:
                return False
        except UnicodeDecodeError:
            pass
        raise No()
    shape, typ = SHAPES[k]
    if x is None or isinstance(x, typ):
        return x
    if not isinstance(x, basestring):
        raise No()
    if s.get('strip', True):
        x = x.strip()
    try:
        return typ(*fields(x, shape))
    except ValueError:
        raise No()


def show(s, v):
    k = s['k']
    if v is None:
        return u''
    if k in ('String', 'Enum'):
        return v
    if k in ('EnumInt', 'Constrained'):
        return u'%d' % v
    if k in ('Integer', 'Long', 'Float', 'Decimal'):
        typ = {'Float': float, 'Decimal': decimal.Decimal}.get(k, int)
        if type(v) is not typ:
            return unicode(v)
        return s.get('fmt', u'%f' if k in ('Float', 'Decimal') else u'%i') % v
    if k == 'Boolean':
        return s.get('true', u'1') if v else s.get('false', u'')
    if k in OWN:
        if k == 'Minutes':
            return u'%02d:%02d' % (v.hour, v.minute)
        return (u'%02d/%02d/' % ((v.day, v.month) if k == 'DayFirst' else
                                 (v.month, v.day))) + u'%04d' % v.year
    out = u''
    if k != 'Time':
        out = u'%04d-%02d-%02d' % (v.year, v.month, v.day)
    if k == 'DateTime':
        out += u' '
    if k != 'Date':
        out += u'%02d:%02d:%02d' % (v.hour, v.minute, v.second)
    return out


def k_lossy(s, v):
    # times of which the text leaves something out
    return s['k'] == 'Minutes' and v is not None and v.second


def verbatim(x):
    if x is None:
        return u''
    if isinstance(x, str):
        return x.decode('ascii', 'replace')
    return unicode(x)


@register
class T09(Prop):
    ID = 'T09'
    CHUNK = 40
    QUICK = 80
    THOROUGH = 3000
    CAP = 600000
    RULE = ('Scalars of every type and configuration, shared by 1-3 tasks, '
            'given generated texts and native values, directly, by keys and '
            'by construction; non-trivial: a preemption in the library, a '
            'fault, or both accepted and refused values.')

    def nontrivial(self, plan, sim):
        return bool(sim.preempts or sim.fired or (
            sim.probes.get('accepted') and sim.probes.get('refused')))

    def spec(self, rng):
        k = gen.pick(rng, KINDS)
        s = {'k': k}
        if (k in ('String', 'Enum') or k in SHAPES) and \
                gen.chance(rng, 0.3):
            s['strip'] = False
        if k == 'Enum':
            s.pop('strip', None)
            s['opts'] = gen.subset(rng, OPTS)
        if k in ('Integer', 'Long', 'Float', 'Decimal'):
            if gen.chance(rng, 0.35):
                s['signed'] = False
            if gen.chance(rng, 0.35):
                s['fmt'] = gen.pick(rng, {
                    'Float': [u'%.2f', u'%g', u'%.1f'],
                    'Decimal': [u'%.2f', u'%s'],
                    }.get(k, [u'%05d', u'%+d', u'n%d', u'%x']))
        if k == 'Boolean':
            if gen.chance(rng, 0.4):
                s['true'] = gen.pick(rng, [u'yes', u'ja', u'T', u'on', u'0',
                                           u'off', u''])
            if gen.chance(rng, 0.4):
                s['false'] = gen.pick(rng, [u'no', u'nein', u'0', u'2'])
            if gen.chance(rng, 0.2):
                s['yes'] = gen.subset(rng, [u'y', u'x', u'ja', u'2'])
            if gen.chance(rng, 0.2):
                s['no'] = gen.subset(rng, [u'n', u'0', u'no'])
        return s

    def near(self, rng, t):
        """*t* or something close to it."""
        r = rng.randrange(14)
        i = rng.randrange(len(t) + 1)
        if r == 0:
            return t[:i] + t[i + 1:]
        if r == 1:
            return t[:i] + gen.pick(rng, [u'0', u'1', u'-', u' ', u'x', u':',
                                          u'.', u'\u0663', u'\n', u'T']) + t[i:]
        if r == 2 and i < len(t):
            return t[:i] + gen.pick(rng, [u'0', u'9', u'-', u'\u0663', u'3',
                                          u' ']) + t[i + 1:]
        if r == 3:
            return t.upper()
        if r == 4:
            return t + t
        return t

    def value(self, rng, s):
        k = s['k']
        if gen.chance(rng, 0.22):
            return gen.pick(rng, NATIVE)
        if k in ('Integer', 'Long', 'Float', 'Decimal', 'EnumInt',
                 'Constrained'):
            t = gen.pick(rng, DIGITS)
        elif k == 'Boolean':
            t = gen.pick(rng, WORDS)
        elif k == 'Enum':
            t = gen.pick(rng, OPTS)
        elif k in SHAPES:
            t = u''
            if k in ('DayFirst', 'MonthFirst'):
                # often the same text for both
                t = u'%s/%s/%s' % (
                    gen.pick(rng, [u'02', u'03', u'12', u'31', u'00']),
                    gen.pick(rng, [u'03', u'02', u'04', u'13']),
                    gen.pick(rng, [u'2004', u'2004', u'1999', u'0001']))
            elif k not in ('Time', 'Minutes'):
                t = u'%s-%s-%s' % (
                    gen.pick(rng, [u'2001', u'2000', u'1999', u'1900',
                                   u'0001', u'9999', u'0000', u'2024']),
                    gen.pick(rng, [u'01', u'02', u'12', u'13', u'00', u'04']),
                    gen.pick(rng, [u'01', u'28', u'29', u'30', u'31', u'32',
                                   u'00', u'1']))
            if k == 'DateTime':
                t += gen.pick(rng, [u' ', u' ', u' ', u'T', u'  '])
            if k == 'Minutes':
                t = u'%s:%s' % (gen.pick(rng, [u'00', u'12', u'23', u'24']),
                                gen.pick(rng, [u'00', u'59', u'60']))
            elif k in ('Time', 'DateTime'):
                t += u'%s:%s:%s' % (
                    gen.pick(rng, [u'00', u'12', u'23', u'24', u'7']),
                    gen.pick(rng, [u'00', u'59', u'60']),
                    gen.pick(rng, [u'00', u'59', u'60', u'61']))
            if gen.chance(rng, 0.06):
                t = gen.pick(rng, [u'', u'today', u'2001-02-03',
                                   u'12:30:00', u'02/03/2004', u'12:30'])
        else:
            t = gen.pick(rng, [u'', u'x', u'a b', u'\xe9', u'\U0001f600',
                               u'0', u'\u2028'])
        t = self.near(rng, t)
        t = gen.pick(rng, SPACE) + t + gen.pick(rng, SPACE)
        if k in SHAPES and s.get('strip') is False:
            # the patterns end in "$", which allows one line feed
            t = t.rstrip(u'\n')
        if gen.chance(rng, 0.1):
            try:
                return {'b': t.encode('ascii')}
            except UnicodeError:
                pass
        return t

    def gen(self, rng):
        nt = ntasks(rng, 0.4, 3)
        fault = gen.chance(rng, 0.3)
        specs = [self.spec(rng) for _ in range(gen.some(rng, 1, 3))]
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 3, 10)):
                i = rng.randrange(len(specs))
                op = {'s': i, 'x': self.value(rng, specs[i]),
                      'o': gen.pick(rng, ['set', 'set', 'set', 'flat', 'new',
                                          'member', 'adapt'])}
                if fault and gen.chance(rng, 0.2):
                    op['f'] = gen.pt_fault(rng, 40)
                ops.append(op)
            tasks.append(ops)
        return {'specs': specs, 'tasks': tasks, 'sched': gen.sched(rng, nt)}

    def cls(self, s, W, i):
        fl, k = W.fl, s['k']
        kw = {}
        if k == 'Enum':
            c = fl.Enum.valued(*s['opts'])
        elif k == 'EnumInt':
            c = fl.Enum.using(child_type=fl.Integer).valued(1, 2, 5, 99)
        elif k == 'Constrained':
            c = fl.Constrained.using(
                child_type=fl.Integer, valid_value=staticmethod(
                    lambda el, v: v is not None and 0 <= v <= 9))
        elif k in OWN:
            base, regex, fmt, used = OWN[k]
            c = getattr(fl, base).using(regex=re.compile(regex), format=fmt)
            if used:
                c = c.using(used=used)
        else:
            c = getattr(fl, k)
        for a, b in (('strip', 'strip'), ('signed', 'signed'),
                     ('fmt', 'format'), ('true', 'true'), ('false', 'false'),
                     ('yes', 'true_synonyms'), ('no', 'false_synonyms')):
            if a in s:
                kw[b] = s[a]
        if 'yes' in s:
            kw['true_synonyms'] = s['yes'] or [u'on', u'true', u'True', u'1']
        if 'no' in s:
            kw['false_synonyms'] = s['no'] or [u'off', u'false', u'False',
                                               u'0', u'']
        return c.named(u'f%d' % i).using(**kw)

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.cls = [self.cls(s, W, i) for i, s in enumerate(plan['specs'])]
        c.lists = [W.fl.List.of(k) for k in c.cls]
        c.els = [[k() for k in c.cls] for t in plan['tasks']]
        return c

    def do(self, c, i, op):
        sim, s = c.sim, c.plan['specs'][op['s']]
        cls, e = c.cls[op['s']], c.els[i][op['s']]
        x = op['x']
        x = x['b'].encode('latin-1') if isinstance(x, dict) and 'b' in x \
            else native(x)
        try:
            v = read(s, x)
            ok, u = True, show(s, v)
        except No:
            ok, v, u = False, None, verbatim(x)
        made = []
        o = op['o']
        if o == 'set':
            fn = lambda: e.set(x)
        elif o == 'flat':
            fn = lambda: e.set_flat([(u'other', u'9'), (e.name, x)])
        elif o == 'new':
            fn = lambda: made.append(cls(x))
        elif o == 'member':
            fn = lambda: made.append(c.lists[op['s']]([x])[0])
        else:
            fn = lambda: e.adapt(x)
        r = sim.op(o, op.get('f'), fn)
        if sim.fault_hit:
            e.set(None)
            return
        what = '%s of %r on a %s' % (o, x, sorted(s.items()))
        sim.probe('accepted' if ok else 'refused')
        if o == 'adapt':
            if ok != (r[0] == 'ok') or ok and not self.same(r[1], v) or \
                    not ok and not isinstance(r[1], c.W.exc.AdaptationError):
                sim.fail('text', '%s gave %r, expected %r' % (
                    what, r[1], v if ok else 'refusal'))
            return
        if r[0] != 'ok':
            sim.fail('text', '%s raised %r' % (what, r[1]))
        if made:
            e = made[0]
        if o == 'set' and bool(r[1]) != ok:
            sim.fail('text', '%s returned %r, expected %r' % (
                what, r[1], ok))
        if not self.same(e.value, v) or e.u != u or \
                not isinstance(e.u, unicode):
            sim.fail('text', '%s: value %r, u %r; expected %r, %r' % (
                what, e.value, e.u, v, u))
        if bool(e) != bool(u and v):
            sim.fail('text', '%s: is %r with value %r, u %r' % (
                what, bool(e), v, u))
        if ok and s['k'] not in ('Float', 'Decimal') and 'fmt' not in s \
                and not (s['k'] == 'Boolean' and v is False and u in
                         (s.get('yes') or [u'on', u'true', u'True', u'1']) +
                         [s.get('true', u'1')]) and \
                not (k_lossy(s, v)) and v is not None:
            # its own text says the same
            t = cls()
            if not t.set(u) or t.u != u:
                sim.fail('text', '%s: its text %r reads as %r, %r' % (
                    what, u, t.value, t.u))

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        return pc.canon(a) == pc.canon(b) and (a == b or a != a and b != b)
