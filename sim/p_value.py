# -*- coding: utf-8 -*-
"""V06-V08: what the stock value validators accept, and what they leave."""
import re
import sys
import urlparse as stdparse

from java.lang import Throwable

import gen
import p_common as pc
from base import Prop, Ctx, register, ntasks
from model import dv

STRINGS = [u'', u' ', u'x', u'abc', u'abcd', u'abcde', u'on', u'0', u'1',
           u'7', u'-3', u'\xe9t\xe9', u'\U0001f600', u'a b', None, u'True']
NUMBERS = [None, u'', u'0', u'1', u'2', u'3', u'4', u'5', u'-1', u'-17', 7,
           10, 0, u'x', 2 ** 40, u'100']
BOUNDS = [0, 1, 2, 3, 4, 5, 7, -1, 10]
C63 = u'x' * 63
EMAILS = [u'bob@noob.com', u'', None, u'@', u'bob@', u'@bob.com', u'a@b',
          u'a@b@c.d', u'root@localhost', u' @b.c', u'\t@b.c', u'a@b.c\n',
          u'a@b\n.c', u'a b@c.d', u'\u2603@b.c', u'bob@snow\u2603man.com',
          u'a@b..c', u'a@.b.c', u'a@b.c.', u'a@b_c.d', u'a@b c.d',
          u'a@-b.c', u'a@' + C63 + u'.com', u'a@x' + C63 + u'.com',
          u'a@%s.%s.%s.%s.com' % (C63, C63, C63, C63),
          u'a@%s.%s.%s.com' % (C63, C63, C63), u'A@B.C', u'a@[1.2.3.4]',
          u'a@1.2.3.4', u'a@b.c@', u'x\n@b.c', u'a@b.c\r', u'bob', u'a@b.c,',
          u'a@\xfc.de', u'a@\xfc', u'bob@b.org',
          # short as typed, long as sent: labels and whole domains
          u'a@' + u'\xfc' * 57 + u'.de', u'a@' + u'.'.join([u'\xfc' * 20] * 10),
          u'a@' + u'.'.join([u'\xfc' * 20] * 5), u'a@' + u'\xfcb' * 25 + u'.de',
          u'a@' + u'.'.join([u'\xfc'] * 60), u'a@' + u'\xfc.' * 40 + u'de']
URLS = [u'http://there/', u'http://there', u'https://a.b/c;d?e=f#g',
        u'ftp://there/x', u'mailto:a@b', u'there/x', u'//there/x', u'',
        None, u' http://a/ ', u'http://', u'http:///x', u'HTTP://There/',
        u'http://u@there/', u'http://u:p@there/', u'http://:p@there/',
        u'http://@there/', u'http://there:80/', u'http://there:x/',
        u'http://there:/', u'http://[there/', u'http://[::1]/', u'a:b:c',
        u'http://a/?', u'http://a/#', u'http://a/#x', u'http://a/?q#x',
        u'http://a/;p', u'javascript:alert(1)', u'http://\xfc/\xe9?\u2603',
        u'ssh://h', u'boom://x', u'http://there:8080/p?q',
        u'http://there:65536/', u'x', u'#frag', u'?q=1', u'http://a b/c',
        u'http://a/%23#x', u'HTTPS://a/b#c']
PARTS = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']
HPARTS = ['scheme', 'username', 'password', 'hostname', 'port', 'path',
          'params', 'query', 'fragment']
PHONES = [u'212-555-1234', u'(212) 555 1234', u'2125551234', u'', None,
          u'212555123', u'21255512345', u'212-555-1234 x56', u'x', u'+1 212',
          u'012-555-1234', u'212.555.0000', u'212-555-1234 x007', u'000-000-'
          u'0000', u'1-212-555-1234', u'\u0662\u0661\u0662-555-1234',
          u'212 555 1234 ext 99999999999999999999', u' 212\n555\t1234 ',
          u'212-055-0034']
NXX = [None, 0, 199, 200, 201, 212, 311, 411, 511, 611, 711, 811, 911, 555,
       990, 959, 958, 950, 700, 976, 999, 312, 1000, -5, u'x']
CARDS = [u'4111-1111-1111-1111', u'4111 1111 1111 1111', u'4111111111111111',
         u'4111111111111112', u'5500-0000-0000-0004', u'5105105105105100',
         u'340000000000009', u'3782-822463-10005', u'6011000000000004',
         u'6011-1111-1111-1117', u'', None, u'x', u'4111', u'0000000000000000',
         u'1234567890123456', u'1234-5678-9012-3452', u'30000000000004',
         u'-4111111111111111', u'5600000000000003', u'4111-1111-1111-1111x',
         u'341111111111111', 4111111111111111, 340000000000009, 18, 0,
         u'                ', u'41111111111111113', u'2221000000000009']
LUHN = [None, 0, 18, 17, 10, 91, 4111111111111111, 4111111111111112, -18,
        -1, 79927398713, 79927398710, u'x', 2 ** 70, 59, 67, 75, 109]
TYPES = {'Visa': 'VISA', 'MasterCard': 'MASTERCARD',
         'American Express': 'AMEX', 'Discover': 'DISCOVER'}

FAMILY = {
    'text': (['Present', 'IsTrue', 'IsFalse', 'ValueIn', 'Converted',
              'ShorterThan', 'LongerThan', 'LengthBetween', 'NoLongerThan'],
             ['String', 'Raw', 'Multi', 'Joined', 'Enum'], STRINGS),
    'number': (['Present', 'IsTrue', 'IsFalse', 'ValueIn', 'Converted',
                'ValueLessThan', 'ValueAtMost', 'ValueGreaterThan',
                'ValueAtLeast', 'ValueBetween', 'ValueBetween',
                'LongerThan'],
               ['Integer', 'Long', 'Float', 'Boolean', 'Multi'], NUMBERS),
    'email': (['IsEmail'], ['String', 'Raw'], EMAILS),
    'url': (['URLValidator', 'HTTPURLValidator', 'URLCanonicalizer'],
            ['String', 'Raw'], URLS),
    'phone': (['NANPphone'], ['String', 'Raw'], PHONES),
    'nxx': (['NANPnxx'], ['Integer', 'Long'], NXX),
    'luhn': (['Luhn10'], ['Long', 'Integer'], LUHN),
}


class Options(object):
    """A container of valid options that changes under the validator."""

    def __init__(self, c, items):
        self.c = c
        self.items = items

    def __contains__(self, x):
        self.c.sim.cb('options')
        return self.c.isin(x, self.items)


class Bound(object):
    """A comparable that is not a number."""

    def __init__(self, c, n):
        self.c = c
        self.n = n

    def __cmp__(self, other):
        self.c.sim.cb('compare')
        other = other.n if isinstance(other, Bound) else other
        return cmp(self.n, other)

    def __unicode__(self):
        return u'<%s>' % self.n


class Parse(object):
    """urlparse, with URLs it can not parse."""

    def __init__(self, c):
        self.c = c

    def urlparse(self, url):
        self.c.sim.cb('urlparse')
        if u'boom' in url:
            raise RuntimeError('boom')
        return stdparse.urlparse(url)

    def urlunparse(self, url):
        self.c.sim.cb('urlunparse')
        return stdparse.urlunparse(url)


class Lookup(object):
    """The directory NANPnpa_nxx asks: another party, that can fail."""

    def __init__(self, c):
        self.c = c
        self.asked = {}

    def valid_npanxx(self, npa, nxx):
        self.c.sim.cb('lookup')
        self.asked.setdefault(id(self.c.sim.cur), []).append((npa, nxx))
        return (npa + nxx) % 2 == 0

    check = valid_npanxx


class Holder(object):
    pass


def luhn(n):
    """The checksum, digit by digit."""
    if n < 0:
        return False
    total = 0
    for i, d in enumerate(reversed(str(n))):
        d = int(d) * (1 + i % 2)
        total += d // 10 + d % 10
    return total % 10 == 0


def card_type(n):
    s = str(n)
    if s.startswith('-'):
        return None
    if len(s) == 16 and s[0] == '4':
        return 'Visa'
    if len(s) == 16 and s[0] == '5' and s[1] in '12345':
        return 'MasterCard'
    if len(s) == 15 and s[:2] in ('34', '37'):
        return 'American Express'
    if len(s) == 16 and s[:4] == '6011':
        return 'Discover'
    return None


def pretty(n):
    s = str(n)
    cuts = {16: (4, 8, 12), 15: (4, 10)}.get(len(s), ())
    out, at = [], 0
    for k in cuts:
        out.append(s[at:k])
        at = k
    return u'-'.join(out + [s[at:]])


class Values(Prop):
    MODES = ()
    FAMILIES = ()
    CHUNK = 40
    QUICK = 80
    THOROUGH = 3000
    CAP = 1000000
    RULE = ('Shared instances of every stock value validator judging fields '
            'of 1-3 tasks with random and near-miss values, changing '
            'options, failing parsers and directories; non-trivial: a '
            'preemption in the library, a fault, or both verdicts of some '
            'validator.')

    def nontrivial(self, plan, sim):
        return bool(sim.preempts or sim.fired or (
            sim.probes.get('accepted') and sim.probes.get('refused')))

    # -- plans ---------------------------------------------------------------

    def validator(self, rng, kind):
        d = {'k': kind}
        if kind == 'ValueIn':
            d['opts'] = gen.subset(rng, [1, 2, 3, u'x', u'abc', True, None,
                                         u'', u'1', 0, 5.0])
            d['as'] = gen.pick(rng, ['list', 'tuple', 'set', 'obj', 'list'])
        elif kind in ('ShorterThan', 'NoLongerThan', 'LongerThan'):
            d['n'] = gen.some(rng, 0, 5)
        elif kind == 'LengthBetween':
            d['n'] = gen.some(rng, 0, 3)
            d['m'] = d['n'] + gen.some(rng, 0, 3)
        elif kind.startswith('Value'):
            d['n'] = gen.pick(rng, BOUNDS)
            d['m'] = d['n'] + gen.pick(rng, [0, 1, 3, -1])
            d['obj'] = gen.chance(rng, 0.2)
            d['incl'] = gen.pick(rng, [None, True, False])
        elif kind == 'IsEmail':
            d['local'] = gen.chance(rng, 0.4)
            d['pat'] = gen.pick(rng, [None, None, u'^bob$'])
            d['dom'] = gen.pick(rng, [None, None, u'^.*\\.org$'])
        elif kind == 'URLValidator':
            d['schemes'] = gen.pick(rng, [None, ['http'], ['http', 'ftp'],
                                          ['*'], []])
            d['parts'] = gen.pick(rng, [None, None, gen.subset(rng, PARTS)])
            d['parse'] = gen.chance(rng, 0.4)
        elif kind == 'HTTPURLValidator':
            some = lambda: dict([(p, gen.pick(rng, [
                True, True, ['http', 'https'], ['80', 'there'],
                [u'/', u'/x', u'q']])) for p in gen.subset(rng, HPARTS, 2)])
            d['req'] = some() if gen.chance(rng, 0.5) else None
            d['forb'] = some() if gen.chance(rng, 0.5) else None
            d['parse'] = gen.chance(rng, 0.4)
        elif kind == 'URLCanonicalizer':
            d['drop'] = gen.pick(rng, [None, None, gen.subset(rng, PARTS)])
            d['parse'] = gen.chance(rng, 0.4)
        elif kind == 'NANPphone':
            d['ext'] = gen.pick(rng, [None, False, True, 'strip'])
        d['msg'] = gen.chance(rng, 0.2)
        d['sub'] = gen.chance(rng, 0.3)
        return d

    def gen(self, rng):
        nt = ntasks(rng, 0.4, 3)
        fault = gen.chance(rng, 0.35)
        mode = gen.pick(rng, self.MODES)
        if mode != 'plain':
            return getattr(self, 'gen_' + mode)(rng, nt, fault)
        fam = gen.pick(rng, self.FAMILIES)
        kinds, types, values = FAMILY[fam]
        vs = [self.validator(rng, gen.pick(rng, kinds))
              for _ in range(gen.some(rng, 1, 3))]
        fields = [{'t': gen.pick(rng, types), 'label': gen.pick(
            rng, [None, u'The field', u'L\xe9 %d' % i]),
            'name': u'f%d' % i} for i in range(gen.some(rng, 1, 3))]
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 2, 9 if nt == 1 else 6)):
                op = {'o': 'judge', 'f': rng.randrange(len(fields)),
                      'v': rng.randrange(len(vs)),
                      'x': gen.pick(rng, values),
                      'how': gen.pick(rng, ['direct', 'call', 'el', 'el'])}
                if gen.chance(rng, 0.1):
                    op['x'] = gen.pick(rng, values)
                if fam == 'number' and gen.chance(rng, 0.1):
                    op['x'] = gen.pick(rng, [True, False, 1.0, 2.5])
                if fam in ('email', 'url', 'phone') and gen.chance(rng, 0.3) \
                        and op['x']:
                    op['x'] = self.mutate(rng, op['x'], values)
                if fam in ('luhn',) and gen.chance(rng, 0.4):
                    op['x'] = rng.randrange(10 ** gen.some(rng, 1, 18))
                if nt == 1 and gen.chance(rng, 0.15):
                    op['o'] = 'change'
                    op['n'] = gen.pick(rng, BOUNDS)
                self.faulty(rng, op, fault)
                ops.append(op)
            tasks.append(ops)
        return {'mode': 'plain', 'vals': vs, 'fields': fields, 'tasks': tasks,
                'sched': gen.sched(rng, nt)}

    def faulty(self, rng, op, fault):
        if fault and gen.chance(rng, 0.3):
            if gen.chance(rng, 0.6):
                op['fault'] = gen.pt_fault(rng, 60)
            else:
                op['fault'] = gen.cb_fault(rng, 3, ('kill', 'memory'))

    def mutate(self, rng, x, values):
        i = rng.randrange(len(x) + 1)
        r = rng.randrange(5)
        if r == 0:
            return x[:i] + x[i + 1:]
        if r == 1:
            return x[:i] + gen.pick(rng, [u'.', u'@', u' ', u'\n', u':', u'/',
                                          u'#', u'?', u'0', u'\xe9', u'-',
                                          u'_', u'[', u'5']) + x[i:]
        if r == 2:
            return x + u'\n'
        if r == 3:
            y = gen.pick(rng, values) or u''
            return x[:i] + y[i:]
        return x.upper()

    def gen_npa(self, rng, nt, fault):
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 2, 6)):
                op = {'o': 'npa', 'a': gen.pick(rng, [None, 212, 213, u'x']),
                      'b': gen.pick(rng, [None, 555, 556, 200]),
                      'v': rng.randrange(2), 'st': gen.pick(
                          rng, ['attr', 'dict'])}
                self.faulty(rng, op, fault)
                ops.append(op)
            tasks.append(ops)
        vals = [{'to': gen.pick(rng, [None, u'err', u'npa', u'/err',
                                      u'sub/x']),
                 'inc': gen.chance(rng, 0.5), 'msg': gen.chance(rng, 0.3),
                 'look': gen.pick(rng, [None, 'dir']),
                 'meth': gen.pick(rng, [None, 'check'])} for _ in range(2)]
        return {'mode': 'npa', 'vals': vals, 'tasks': tasks,
                'sched': gen.sched(rng, nt)}

    def gen_card(self, rng, nt, fault):
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 2, 6)):
                op = {'o': 'card', 'x': gen.pick(rng, CARDS),
                      'c': rng.randrange(3)}
                if gen.chance(rng, 0.3):
                    pre = gen.pick(rng, ['4', '51', '55', '56', '50', '34',
                                         '37', '35', '6011', '6012', '7'])
                    n = gen.pick(rng, [14, 15, 16, 17])
                    s = pre + '%0*d' % (n - len(pre) - 1, rng.randrange(
                        10 ** (n - len(pre) - 1)))
                    fit = [d for d in '0123456789' if luhn(int(s + d))]
                    op['x'] = unicode(s + fit[0])
                self.faulty(rng, op, fault)
                ops.append(op)
            tasks.append(ops)
        cards = []
        for i in range(3):
            l = gen.subset(rng, sorted(TYPES)) or ['Visa']
            cards.append({'acc': l if gen.chance(rng, 0.7) else None,
                          'how': gen.pick(rng, ['using', 'init', 'sub'])})
        return {'mode': 'card', 'cards': cards, 'tasks': tasks,
                'sched': gen.sched(rng, nt)}

    def gen_equal(self, rng, nt, fault):
        names = [u'a', u'b', u'c']
        types = [gen.pick(rng, ['String', 'Integer', 'Raw']) for n in names]
        vals = []
        for _ in range(gen.some(rng, 1, 3)):
            paths = [gen.pick(rng, names + [u'sub/x'])
                     for _ in range(gen.some(rng, 2, 4))]
            vals.append({'k': gen.pick(rng, ['ValuesEqual', 'UnisEqual',
                                             'MapEqual', 'fn', 'fn']),
                         'p': paths, 'sub': gen.chance(rng, 0.3),
                         'msg': gen.chance(rng, 0.3)})
        tasks = []
        for t in range(nt):
            ops = []
            for _ in range(gen.some(rng, 2, 6)):
                op = {'o': 'equal', 'v': rng.randrange(len(vals)),
                      'x': [gen.pick(rng, [None, u'1', u' 1', 1, u'x', u'X',
                                           u'01', u''])
                            for n in names + ['x']]}
                if gen.chance(rng, 0.5):
                    op['x'] = [op['x'][0]] * 4
                    if gen.chance(rng, 0.5):
                        op['x'][rng.randrange(4)] = u'1'
                self.faulty(rng, op, fault)
                ops.append(op)
            tasks.append(ops)
        return {'mode': 'equal', 'types': types, 'vals': vals,
                'tasks': tasks, 'sched': gen.sched(rng, nt)}

    # -- the real thing --------------------------------------------------------

    def isin(self, x, items):
        for y in items:
            if y is x or y == x:
                return True
        return False

    def field(self, f, W):
        fl, t = W.fl, f['t']
        if t == 'String':
            cls = fl.String
        elif t == 'Raw':
            cls = fl.String.using(strip=False)
        elif t == 'Multi':
            cls = fl.MultiValue.of(fl.String)
        elif t == 'Joined':
            cls = fl.JoinedString.of(fl.String)
        elif t == 'Enum':
            cls = fl.Enum.valued(u'x', u'abc', u'on')
        else:
            cls = getattr(fl, t)
        cls = cls.named(f.get('name'))
        if f.get('label'):
            cls = cls.using(label=f['label'])
        return cls

    def make(self, c, d, i):
        """The validator of a descriptor."""
        k, W = d['k'], c.W
        if k == 'NANPnxx':
            W.activate()
            __import__('flatland.validation.number')
            cls = sys.modules['flatland.validation.number'].NANPnxx
        else:
            cls = getattr(W.v, k)
        kw, args = {}, []
        if k == 'ValueIn':
            d['live'] = list(d['opts'])
            c.live[i] = d['live']
            if d['as'] == 'obj':
                kw['valid_options'] = Options(c, d['live'])
            elif d['as'] == 'list':
                kw['valid_options'] = d['live']
            else:
                kw['valid_options'] = {'tuple': tuple, 'set': frozenset}[
                    d['as']](d['live'])
        elif k in ('ShorterThan', 'NoLongerThan'):
            kw['maxlength'] = d['n']
        elif k == 'LongerThan':
            kw['minlength'] = d['n']
        elif k == 'LengthBetween':
            kw.update(minlength=d['n'], maxlength=d['m'])
        elif k in ('ValueLessThan', 'ValueGreaterThan'):
            args = [self.bound(c, d, d['n'])]
        elif k == 'ValueAtMost':
            kw['maximum'] = self.bound(c, d, d['n'])
        elif k == 'ValueAtLeast':
            kw['minimum'] = self.bound(c, d, d['n'])
        elif k == 'ValueBetween':
            args = [self.bound(c, d, d['n']), self.bound(c, d, d['m'])]
            if d['incl'] is not None:
                kw['inclusive'] = d['incl']
        elif k == 'IsEmail':
            if d['local']:
                kw['non_local'] = False
            if d['pat']:
                kw['local_part_pattern'] = re.compile(d['pat'])
            if d['dom']:
                kw['domain_pattern'] = re.compile(d['dom'])
        elif k == 'URLValidator':
            if d['schemes'] is not None:
                kw['allowed_schemes'] = tuple(d['schemes'])
            if d['parts'] is not None:
                kw['allowed_parts'] = set(d['parts'])
        elif k == 'HTTPURLValidator':
            if d['req'] is not None:
                kw['required_parts'] = dict(d['req'])
            if d['forb'] is not None:
                kw['forbidden_parts'] = dict(d['forb'])
        elif k == 'URLCanonicalizer':
            if d['drop'] is not None:
                kw['discard_parts'] = tuple(d['drop'])
        elif k == 'NANPphone':
            if d['ext'] is not None:
                args = [d['ext']]
        if d.get('parse'):
            kw['urlparse'] = Parse(c)
        if d['msg']:
            for key in self.keys(k):
                kw[key] = u'own %s for %%(label)s' % key
        if d['sub'] and not args and k != 'NANPphone' and not [
                a for a in kw if not hasattr(cls, a)]:
            # configured by subclassing
            return type('Own', (cls,), dict(
                (a, staticmethod(x) if callable(x) else x)
                for a, x in kw.items()))()
        return cls(*args, **kw)

    def bound(self, c, d, n):
        return Bound(c, n) if d['obj'] else n

    def keys(self, k):
        return {'Present': ['missing'], 'IsTrue': ['false'],
                'IsFalse': ['true'], 'ValueIn': ['fail'],
                'Converted': ['incorrect'], 'ShorterThan': ['exceeded'],
                'NoLongerThan': ['exceeded'], 'LongerThan': ['short'],
                'LengthBetween': ['breached'],
                'ValueBetween': ['failure_inclusive', 'failure_exclusive'],
                'IsEmail': ['invalid'], 'Luhn10': ['invalid'],
                'URLValidator': ['bad_format', 'blocked_scheme',
                                 'blocked_part'],
                'HTTPURLValidator': ['bad_format', 'required_part',
                                     'forbidden_part'],
                'URLCanonicalizer': ['bad_format'],
                'NANPphone': ['invalid', 'noext'], 'NANPnxx': []}.get(
                    k, ['failure'])

    def setup(self, plan, sim, W):
        c = Ctx(plan, sim, W)
        c.isin = self.isin
        c.live = {}
        mode = plan['mode']
        if mode == 'plain':
            c.cfg = [dict(d) for d in plan['vals']]
            c.vals = [self.make(c, d, i) for i, d in enumerate(c.cfg)]
            c.cls = [self.field(f, W) for f in plan['fields']]
            c.with_v = dict(((f, v), c.cls[f].validated_by(c.vals[v]))
                            for f in range(len(c.cls))
                            for v in range(len(c.vals)))
            c.els = [[k() for k in c.cls] for t in plan['tasks']]
            c.vels = [dict((k, x()) for k, x in sorted(c.with_v.items()))
                      for t in plan['tasks']]
        elif mode == 'npa':
            self.setup_npa(c)
        elif mode == 'card':
            self.setup_card(c)
        else:
            self.setup_equal(c)
        return c

    def do(self, c, i, op):
        getattr(self, 'op_' + op['o'])(c, i, op)

    # -- one field, one validator ----------------------------------------------

    def op_change(self, c, i, op):
        """The options and bounds are looked at when they are needed."""
        d, v = c.cfg[op['v']], c.vals[op['v']]
        n = op['n']
        if d['k'] == 'ValueIn' and d['as'] in ('list', 'obj'):
            if n in d['live']:
                d['live'].remove(n)
            else:
                d['live'].append(n)
        elif d.get('obj'):
            for a in ('boundary', 'maximum', 'minimum'):
                b = getattr(v, a, None)
                if isinstance(b, Bound):
                    b.n = n
                    d['m' if a == 'maximum' and
                      d['k'] == 'ValueBetween' else 'n'] = n

    def op_judge(self, c, i, op):
        sim = c.sim
        d, v = c.cfg[op['v']], c.vals[op['v']]
        own = op['how'] == 'el'
        e = c.vels[i][op['f'], op['v']] if own else c.els[i][op['f']]
        x = op['x']
        try:
            if isinstance(e, c.W.fl.MultiValue):
                e.set([x] if x is not None else [])
            elif isinstance(e, c.W.fl.JoinedString) and x is None:
                e.set(u'')
            else:
                e.set(x)
        except Exception:
            e.set(None)
        # in the main task alone: e is this task's
        del e.errors[:]
        del e.warnings[:]
        before = (e.value, e.u)
        want = self.judge(c, d, e)
        if want is None:
            return
        state = Holder()
        if own:
            fn = lambda: e.validate(state, recurse=False)
        elif op['how'] == 'call':
            fn = lambda: v(e, state)
        else:
            fn = lambda: v.validate(e, state)
        r = sim.op('judge', op.get('fault'), fn)
        what = '%s on a %s holding %r (u %r)' % (
            sorted((a, b) for a, b in d.items()
                   if a not in ('msg', 'sub', 'live')),
            c.plan['fields'][op['f']]['t'], before[0], before[1])
        if sim.fault_hit:
            sim.probe('faulted')
            return
        if r[0] != 'ok':
            sim.fail('raises', '%s raised %r' % (what, r[1]))
        ok, msg, now = want
        if bool(r[1]) != ok:
            sim.fail('verdict', '%s: %r, expected %r' % (what, r[1], ok))
        sim.probe('accepted' if ok else 'refused')
        exp = [msg] if msg is not None else []
        if list(e.errors) != exp or list(e.warnings):
            sim.fail('message', '%s: errors %r, warnings %r, expected %r' % (
                what, list(e.errors), list(e.warnings), exp))
        got = (e.value, e.u)
        if now is None:
            now = before
        if not (pc.canon(got[0]) == pc.canon(now[0]) and got[1] == now[1]):
            sim.fail('rewritten', '%s: holds %r (u %r) afterwards, expected '
                     '%r (u %r)' % (what, got[0], got[1], now[0], now[1]))

    def judge(self, c, d, e):
        """(verdict, message, (value, u) afterwards or None)."""
        k = d['k']
        value, u = e.value, e.u
        label = e.label
        text = lambda t, key, **kw: (False, (
            u'own %s for %%(label)s' % key if d['msg'] and
            key in self.keys(k) else t) % dict(kw, label=label), None)
        good = (True, None, None)
        if k == 'Present':
            return text(u'%(label)s may not be blank.', 'missing') \
                if len(u) == 0 else good
        if k == 'IsTrue':
            return good if value else text(u'%(label)s must be True.',
                                           'false')
        if k == 'IsFalse':
            return text(u'%(label)s must be False.', 'true') \
                if value else good
        if k == 'Converted':
            return text(u'%(label)s is not correct.', 'incorrect') \
                if value is None else good
        if k == 'ValueIn':
            if self.isin(value, d['live'] if d['as'] in ('list', 'obj')
                         else d['opts']):
                return good
            return text(u'%(value)s is not a valid value for %(label)s.',
                        'fail', value=value)
        if k in ('ShorterThan', 'NoLongerThan'):
            return good if len(u) <= d['n'] else text(
                u'%(label)s may not exceed %(n)s characters.', 'exceeded',
                n=d['n'])
        if k == 'LongerThan':
            return good if len(u) >= d['n'] else text(
                u'%(label)s must be at least %(n)s characters.', 'short',
                n=d['n'])
        if k == 'LengthBetween':
            return good if d['n'] <= len(u) <= d['m'] else text(
                u'%(label)s must be between %(n)s and %(m)s characters '
                u'long.', 'breached', n=d['n'], m=d['m'])
        if k.startswith('Value'):
            return self.judge_bound(d, value, text, good)
        if k == 'IsEmail':
            ok = self.email(d, u)
            if ok is None:
                return None
            if ok:
                return good
            return text(u'%(label)s is not a valid email address.', 'invalid')
        if k == 'URLValidator':
            return self.judge_url(d, value, text, good)
        if k == 'HTTPURLValidator':
            return self.judge_http(d, value, text, good)
        if k == 'URLCanonicalizer':
            return self.judge_canon(d, e, text, good)
        if k == 'NANPphone':
            return self.judge_phone(d, e, text, good)
        if k == 'NANPnxx':
            if value is None or value < 200 or value % 100 == 11 and \
                    300 <= value < 1000 or value in (
                        555, 990, 959, 958, 950, 700, 976):
                return (False, None, None)
            return (True, None, (value, unicode(value)))
        if k == 'Luhn10':
            if value is not None and luhn(value):
                return good
            return text(u'The %(label)s was not entered correctly.',
                        'invalid')
        raise KeyError(k)

    def judge_bound(self, d, value, text, good):
        k, n, m = d['k'], d['n'], d['m']
        show = (lambda b: u'<%s>' % b) if d['obj'] else (lambda b: b)
        if k == 'ValueLessThan':
            return good if value < n else text(
                u'%(label)s must be less than %(n)s.', 'failure', n=show(n))
        if k == 'ValueAtMost':
            return good if value <= n else text(
                u'%(label)s must be less than or equal to %(n)s.', 'failure',
                n=show(n))
        if k == 'ValueGreaterThan':
            return good if value > n else text(
                u'%(label)s must be greater than %(n)s.', 'failure',
                n=show(n))
        if k == 'ValueAtLeast':
            return good if value >= n else text(
                u'%(label)s must be greater than or equal to %(n)s.',
                'failure', n=show(n))
        if d['incl'] is not False:
            return good if value >= n and value <= m else text(
                u'%(label)s must be in the range %(n)s to %(m)s.',
                'failure_inclusive', n=show(n), m=show(m))
        return good if value > n and value < m else text(
            u'%(label)s must be greater than %(n)s and less than %(m)s.',
            'failure_exclusive', n=show(n), m=show(m))

    def email(self, d, u):
        parts = u.split(u'@')
        if len(parts) != 2 or not parts[0].strip():
            return False
        if d['pat'] and parts[0] not in (u'bob', u'bob\n'):
            return False
        try:
            domain = parts[1].encode('idna').decode('ascii')
        except UnicodeError:
            return False
        except Throwable:
            # Jython's own codec breaks its contract here
            return None
        labels = domain.split(u'.')
        if len(domain) > 253:
            return False
        if d['dom']:
            if not re.match(d['dom'], domain):
                return False
            if len([l for l in labels if len(l) > 63]):
                return False
        else:
            for l in labels:
                if not 0 < len(l) < 64 or [ch for ch in l.lower() if ch not in
                                           u'abcdefghijklmnopqrstuvwxyz'
                                           u'0123456789-']:
                    return False
        return len(labels) > 1 or d['local']

    def parse(self, d, x):
        if d.get('parse') and u'boom' in x:
            raise ValueError('boom')
        return stdparse.urlparse(x)

    def judge_url(self, d, value, text, good):
        bad = u'%(label)s is not a valid URL.'
        if value is None:
            return text(bad, 'bad_format')
        try:
            p = self.parse(d, value.strip())
        except Exception:
            return text(bad, 'bad_format')
        if not p[0] or d['schemes'] not in (None, ['*']) and \
                p[0] not in d['schemes']:
            return text(bad, 'blocked_scheme')
        if d['parts'] is not None:
            for name, part in zip(PARTS, p):
                if part and name not in d['parts']:
                    return text(bad, 'blocked_part')
        return good

    def judge_http(self, d, value, text, good):
        bad = u'%(label)s is not a valid URL.'
        if value is None:
            return good
        try:
            p = self.parse(d, value)
        except Exception:
            return text(bad, 'bad_format')
        req = d['req']
        if req is None:
            req = {'scheme': ['http', 'https'], 'hostname': True}
        forb = d['forb']
        if forb is None:
            forb = {'username': True, 'password': True}
        for name in HPARTS:
            try:
                part = getattr(p, name)
            except ValueError:
                return text(bad, 'bad_format')
            if name == 'port' and part is not None:
                part = str(part)
            want = req.get(name)
            if want is True and not part or \
                    isinstance(want, list) and part not in want:
                return text(bad, 'required_part')
            want = forb.get(name)
            if want is True and part or \
                    isinstance(want, list) and part in want:
                return text(bad, 'forbidden_part')
        return good

    def judge_canon(self, d, e, text, good):
        drop = ['fragment'] if d['drop'] is None else d['drop']
        if not drop:
            return good
        try:
            p = list(self.parse(d, e.value))
        except Exception:
            return text(u'%(label)s is not a valid URL.', 'bad_format')
        for i, name in enumerate(PARTS):
            if name in drop:
                p[i] = ''
        out = stdparse.urlunparse(p)
        t = e.__class__.validated_by()()
        t.set(u'x')
        return (True, None, (out, t.serialize(out)))

    def judge_phone(self, d, e, text, good):
        x = e.u if e.value is None else e.value
        digits = [ch for ch in x if ch.isdigit()]
        # digits of other scripts are converted, as one number
        try:
            s = u''.join(unicode(int(ch)) for ch in digits)
        except ValueError:
            return text(u'The %(label)s is not valid.', 'invalid')
        if [ch for ch in digits if ch not in u'0123456789']:
            s = unicode(int(s))
        if len(s) < 10:
            return text(u'The %(label)s is not valid.', 'invalid')
        line = u'(%s) %s-%s' % (s[:3], s[3:6], s[6:10])
        if len(s) > 10 and d['ext'] != 'strip':
            if not d['ext']:
                return text(u'%(label)s must be a ten-digit phone number '
                            u'without extension.', 'noext')
            line += u' x%d' % int(s[10:])
        return (True, None, (line, line))

    # -- fields that must be equal -----------------------------------------------

    def setup_equal(self, c):
        W, plan = c.W, c.plan
        fields = [self.field({'t': t, 'name': n, 'label': u'L-' + n}, W)
                  for t, n in zip(plan['types'], [u'a', u'b', u'c'])]
        fields.append(W.fl.Dict.named(u'sub').of(W.fl.String.named(u'x')))
        c.schema = W.fl.Dict.named(u'd').of(*fields)
        c.vals = []
        for d in plan['vals']:
            kw = {}
            if d['msg']:
                kw['unequal'] = u'%(label)s: %(labels)s/%(last_label)s'
            if d['k'] == 'fn':
                def fn(el):
                    c.sim.cb('transform')
                    return len(el.u)
                v = self.equal(W.v.MapEqual, d, dict(kw, transform=fn))
            else:
                v = self.equal(getattr(W.v, d['k']), d, kw)
            c.vals.append(v)
        c.els = [[c.schema(), [c.schema.validated_by(v)() for v in c.vals]]
                 for t in plan['tasks']]

    def equal(self, cls, d, kw):
        if d['sub']:
            kw = dict((a, staticmethod(x) if callable(x) else x)
                      for a, x in kw.items())
            return type('Own', (cls,), dict(kw, field_paths=tuple(d['p'])))()
        return cls(*d['p'], **kw)

    def op_equal(self, c, i, op):
        sim, d = c.sim, c.plan['vals'][op['v']]
        v = c.vals[op['v']]
        for e, fn in ((c.els[i][0], lambda e: v.validate(e, None)),
                      (c.els[i][1][op['v']], lambda e: e.validate(
                          recurse=False))):
            e.set_default()
            for n, x in zip([u'a', u'b', u'c'], op['x']):
                e[n].set(x)
            e[u'sub'][u'x'].set(op['x'][3])
            del e.errors[:]
            els = [e[u'sub'][u'x'] if p == u'sub/x' else e[p] for p in d['p']]
            if d['k'] == 'ValuesEqual':
                keys = [el.value for el in els]
            elif d['k'] == 'UnisEqual':
                keys = [el.u for el in els]
            elif d['k'] == 'fn':
                keys = [len(el.u) for el in els]
            else:
                keys = els
            ok = not [k for k in keys[1:] if not k == keys[0]]
            labels = (u', '.join([el.label for el in els[:-1]]),
                      els[-1].label)
            r = sim.op('equal', op.get('fault'), lambda: fn(e))
            if sim.fault_hit:
                continue
            what = '%r over %r' % (d, [(el.value, el.u) for el in els])
            if r[0] != 'ok':
                sim.fail('raises', '%s raised %r' % (what, r[1]))
            if bool(r[1]) != ok:
                sim.fail('verdict', '%s: %r, expected %r' % (what, r[1], ok))
            sim.probe('accepted' if ok else 'refused')
            exp = []
            if not ok:
                exp = [u'd: %s/%s' % labels if d['msg'] else
                       u'%s and %s do not match.' % labels]
            if list(e.errors) != exp:
                sim.fail('message', '%s: errors %r, expected %r' % (
                    what, list(e.errors), exp))

    # -- the telephone directory -------------------------------------------------

    def setup_npa(self, c):
        W = c.W
        W.activate()
        __import__('flatland.validation.number')
        mod = sys.modules['flatland.validation.number']
        fl = W.fl
        c.schema = fl.Dict.named(u'd').of(
            fl.Integer.named(u'npa'), fl.Integer.named(u'nxx'),
            fl.String.named(u'err'),
            fl.Dict.named(u'sub').of(fl.String.named(u'x')))
        c.vals = []
        for d in c.plan['vals']:
            kw = {}
            if d['to'] is not None:
                kw['errors_to'] = d['to']
            if d['inc']:
                kw['incomplete'] = u'%(label)s incomplete'
            if d['msg']:
                kw['invalid'] = u'%(label)s unknown'
            if d['look']:
                kw['lookup'] = d['look']
            if d['meth']:
                kw['method'] = d['meth']
            c.vals.append(mod.NANPnpa_nxx(u'npa', u'nxx', **kw))
        c.lookup = Lookup(c)
        c.els = [c.schema() for t in c.plan['tasks']]

    def op_npa(self, c, i, op):
        sim, d, v = c.sim, c.plan['vals'][op['v']], c.vals[op['v']]
        e = c.els[i]
        e[u'npa'].set(op['a'])
        e[u'nxx'].set(op['b'])
        spots = [e, e[u'npa'], e[u'err'], e[u'sub'][u'x'], e[u'nxx']]
        for s in spots:
            del s.errors[:]
        name = d['look'] or 'aq'
        state = {name: c.lookup}
        if op['st'] == 'attr':
            state = Holder()
            setattr(state, name, c.lookup)
        c.lookup.asked.pop(id(sim.cur), None)
        r = sim.op('npa', op.get('fault'), lambda: v.validate(e, state))
        if sim.fault_hit:
            return
        a, b = e[u'npa'].value, e[u'nxx'].value
        what = 'NANPnpa_nxx %r of %r, %r' % (d, a, b)
        if r[0] != 'ok':
            sim.fail('raises', '%s raised %r' % (what, r[1]))
        spot = {None: e, u'npa': spots[1], u'err': spots[2],
                u'/err': spots[2], u'sub/x': spots[3]}[d['to']]
        asked = c.lookup.asked.pop(id(sim.cur), [])
        if a is None or b is None:
            ok, msg = False, d['inc'] and u'%s incomplete' or None
            if asked:
                sim.fail('asked', '%s: the directory was asked for %r' % (
                    what, asked))
        else:
            ok = (a + b) % 2 == 0
            msg = None if ok else (u'%s unknown' if d['msg'] else
                                   u'The %s can not be verified.')
            if asked != [(a, b)]:
                sim.fail('asked', '%s: the directory was asked for %r' % (
                    what, asked))
        if bool(r[1]) != ok:
            sim.fail('verdict', '%s: %r, expected %r' % (what, r[1], ok))
        sim.probe('accepted' if ok else 'refused')
        for s in spots:
            exp = [msg % s.label] if s is spot and msg else []
            if list(s.errors) != exp:
                sim.fail('message', '%s: errors %r on %s, expected %r' % (
                    what, list(s.errors), s.name, exp))

    # -- credit cards --------------------------------------------------------------

    def setup_card(self, c):
        W = c.W
        W.activate()
        __import__('flatland.ext.creditcard')
        cc = sys.modules['flatland.ext.creditcard']
        c.cards = []
        for i, d in enumerate(c.plan['cards']):
            cls = cc.CreditCardNumber.named(u'card%d' % i)
            acc = None
            if d['acc'] is not None:
                acc = tuple([getattr(cc, TYPES[t]) for t in d['acc']])
                if d['how'] == 'using':
                    cls = cls.using(accepted=acc)
                elif d['how'] == 'sub':
                    cls = type('Own', (cls,), {'accepted': acc})
            c.cards.append((cls, acc if d['how'] == 'init' else None))

    def op_card(self, c, i, op):
        sim = c.sim
        d = c.plan['cards'][op['c']]
        cls, acc = c.cards[op['c']]
        made = []

        def work():
            e = cls(accepted=acc) if acc else cls()
            e.set(op['x'])
            made.append((e, e.validate()))
        r = sim.op('card', op.get('fault'), work)
        if sim.fault_hit:
            return
        what = 'a card of %r given %r' % (d, op['x'])
        if r[0] != 'ok':
            sim.fail('raises', '%s raised %r' % (what, r[1]))
        e, ok = made[0]
        x = op['x']
        if isinstance(x, (int, long)):
            n = x
        else:
            n = None
            if x is not None and len(x) >= 15 and not [
                    ch for ch in x if ch not in u'0123456789- ']:
                digits = x.replace(u'-', u'').replace(u' ', u'')
                if digits:
                    n = int(digits)
        u = pretty(n) if n is not None else (x or u'')
        if x is not None and n is None and e.value is None and \
                e.u == x.strip():
            u = e.u
        if e.value != n or e.u != u:
            sim.fail('card', '%s: value %r, u %r; expected %r, %r' % (
                what, e.value, e.u, n, u))
        label = u'card%d' % op['c']
        types = d['acc'] or ['Visa', 'MasterCard', 'American Express']
        if not e.u:
            exp = u'%s may not be blank.' % label
        elif n is None:
            exp = u'%s is not correct.' % label
        elif not luhn(n):
            exp = u'The %s was not entered correctly.' % label
        elif card_type(n) not in types:
            exp = u'We accept ' + (
                types[0] if len(types) == 1 else
                u' and '.join(types) if len(types) == 2 else
                u', '.join(types[:-1]) + u', and ' + types[-1])
        else:
            exp = None
        if bool(ok) != (exp is None):
            sim.fail('verdict', '%s: %r, expected %r' % (
                what, ok, exp or 'acceptance'))
        sim.probe('accepted' if ok else 'refused')
        if list(e.errors) != ([exp] if exp else []):
            sim.fail('message', '%s: errors %r, expected %r' % (
                what, list(e.errors), exp))
        if n is not None and n >= 0 and len(str(n)) >= 15:
            t = cls()
            t.set(e.u)
            if t.value != n:
                sim.fail('card', '%s: its text %r reads back as %r' % (
                    what, e.u, t.value))


@register
class V06(Values):
    ID = 'V06'
    MODES = ['plain', 'plain', 'plain', 'equal']
    FAMILIES = ['text', 'number']


@register
class V07(Values):
    ID = 'V07'
    MODES = ['plain']
    FAMILIES = ['email', 'url', 'url']
    STUB = ('the urlparse module where the plan asks for it: a delegating '
            'one that also fails')


@register
class V08(Values):
    ID = 'V08'
    MODES = ['plain', 'plain', 'npa', 'card', 'card']
    FAMILIES = ['phone', 'nxx', 'luhn', 'phone']
    STUB = 'the NPA/NXX directory'
