# -*- coding: utf-8 -*-
"""Random schemas, values, schedules and faults (as plain JSON), and building
real schemas from specs."""
import core
import model

NAMES = [u'a', u'b', u'c', u'd', u'x', u'y', u'ab', u'xy', u'n1', u'Ab',
         u'\xe9t\xe9']
TEXTS = [u'', u'x', u' pad ', u'a,b', u'<b>&"\'', u'\xfcber', u'0', u'1',
         u'on', u'true', u'42', u'-7', u' 12 ', u'3.5', u'abc',
         u'2001-02-03', u'2001-02-31', u'12:30:59', u'2001-02-03 04:05:06',
         u'A_B', u'%(label)s %', u'None', u'off', u'no', u'100', u'a b']


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def chance(rng, p):
    return rng.random() < p


def some(rng, lo, hi):
    return lo + rng.randrange(hi - lo + 1)


def sched(rng, tasks=2, lots=False):
    """A schedule policy for a run."""
    if tasks < 2:
        return {'mode': 'seq'}
    r = rng.random()
    salt = rng.randrange(1 << 30)
    if r < 0.08:
        return {'mode': 'seq', 'salt': salt}
    if r < 0.2:
        return {'mode': 'op', 'p': pick(rng, [0.3, 0.6, 0.9]), 'salt': salt}
    if r < 0.5:
        return {'mode': 'rand', 'salt': salt,
                'p': pick(rng, [0.5, 0.2, 0.1, 0.05, 0.02, 0.005])}
    if r < 0.75:
        return {'mode': 'burst', 'k': some(rng, 1, 4), 'salt': salt,
                'hi': pick(rng, [30, 300, 3000])}
    return {'mode': 'site', 'p': pick(rng, [0.3, 0.6, 1.0]), 'salt': salt,
            'mod': pick(rng, [3, 10, 30, 100])}


def cb_fault(rng, hi=6, kinds=('fault', 'fault', 'kill', 'memory'), site=None):
    f = ['cb', some(rng, 1, hi), pick(rng, list(kinds))]
    if site is not None:
        f.append(site)
    return f


def subset(rng, items, hi=None):
    items = list(items)
    rng.shuffle(items)
    return items[:some(rng, 0, hi or len(items))]


def pt_fault(rng, hi=400, kinds=('kill', 'memory', 'fault')):
    import math
    n = 1 + int(math.exp(rng.random() * math.log(hi)))
    return ['pt', n, pick(rng, list(kinds))]


# -- values ---------------------------------------------------------------

def value_for(rng, spec, ok=0.7, depth=0, flat=False):
    """An encoded value to set() on an element of *spec*."""
    k = spec['k']
    if k in model.SCALARS:
        if not flat and chance(rng, 0.08):
            return None
        if not chance(rng, ok):
            if not flat and chance(rng, 0.2):
                return pick(rng, [True, False, 3, -4, 2.5, {'l': []},
                                  {'b': u'raw'}, {'b': u'\xff\xfe'},
                                  {'date': [1999, 12, 31]}])
            return pick(rng, TEXTS)
        if k == 'String':
            return pick(rng, TEXTS)
        if k == 'Integer':
            n = pick(rng, [0, 1, 2, -3, 7, 12, 100, 2011])
            return n if chance(rng, 0.5) and not flat else u'%d' % n
        if k == 'Cons':
            n = pick(rng, [0, 1, 5, 10, 11, -1])
            return n if chance(rng, 0.5) and not flat else u'%d' % n
        if k == 'Float':
            n = pick(rng, [0.5, 1.25, -2.0])
            return n if chance(rng, 0.5) and not flat else u'%s' % n
        if k == 'Boolean':
            if not flat and chance(rng, 0.4):
                return pick(rng, [True, False, 1, 0])
            return pick(rng, [u'on', u'off', u'1', u'0', u'', u'true'])
        if k == 'Date':
            d = pick(rng, [[2001, 2, 3], [1999, 12, 31], [2000, 2, 29]])
            return {'date': d} if chance(rng, 0.4) and not flat else \
                u'%04d-%02d-%02d' % tuple(d)
        if k == 'Time':
            d = pick(rng, [[1, 2, 3], [23, 59, 59], [0, 0, 0]])
            return {'time': d} if chance(rng, 0.4) and not flat else \
                u'%02d:%02d:%02d' % tuple(d)
        if k == 'DateTime':
            d = pick(rng, [[2001, 2, 3, 4, 5, 6], [1999, 12, 31, 0, 0, 0]])
            return {'dt': d} if chance(rng, 0.4) and not flat else \
                u'%04d-%02d-%02d %02d:%02d:%02d' % tuple(d)
        if k == 'Enum':
            return pick(rng, spec['enum'])
    if k == 'PT':
        if chance(rng, ok):
            d = [some(rng, -2, 12), some(rng, 0, 99)]
            return {'t': d} if chance(rng, 0.5) else u'%dx%d' % tuple(d)
        return pick(rng, [None, u'x', u'ax3', u'', 5, {'l': [1]},
                          {'t': [None, 3]}, {'l': [4, u'5']}])
    if k == 'YMD':
        if chance(rng, ok):
            d = pick(rng, [[2001, 2, 3], [1999, 12, 31], [2000, 2, 29]])
            return {'date': d} if chance(rng, 0.5) else \
                u'%04d-%02d-%02d' % tuple(d)
        return pick(rng, [None, u'x', u'2001-02-31', u'', 5])
    if k == 'JoinedString':
        if chance(rng, 0.5):
            return spec.get('sepr', u',').join(
                [pick(rng, [u'a', u'b', u'1', u'22', u'']) for _ in
                 range(some(rng, 0, 4))])
        ms = model.N(spec).member_spec()
        return {'l': [value_for(rng, ms, ok, depth + 1)
                      for _ in range(some(rng, 0, 3))]}
    if k in model.SEQS:
        if not chance(rng, 0.95):
            return pick(rng, [None, 5])
        ms = model.N(spec).member_spec()
        return {'l': [value_for(rng, ms, ok, depth + 1)
                      for _ in range(some(rng, 0, 4 if depth < 2 else 2))]}
    if k in model.MAPS:
        if not chance(rng, 0.97):
            return pick(rng, [None, 5, u'zz'])
        pairs = []
        for s in spec['of']:
            if chance(rng, 0.8) or spec.get('policy') == 'strict' and \
                    chance(rng, 0.7):
                pairs.append([s['n'], value_for(rng, s, ok, depth + 1)])
        if chance(rng, 0.06):
            pairs.append([u'zzz', u'1'])
        rng.shuffle(pairs)
        return {pick(rng, ['d', 'd', 'p']): pairs}
    raise KeyError(k)


def pairs_for(rng, spec, sep=u'_', ok=0.7, keep=0.85):
    """Flat pairs describing a random element of *spec*, as a browser would
    send them."""
    node = random_node(rng, spec, ok)
    out = []
    for k, u in node.flatten(sep):
        if chance(rng, keep):
            out.append([k, u])
    return out


def random_node(rng, spec, ok=0.8, parent=None):
    """A model element filled with random values (through set)."""
    n = model.N(spec, parent)
    fill(rng, n, ok)
    return n


def fill(rng, n, ok=0.8, depth=0):
    k = n.k
    if k in model.SCALARS:
        n.set(model.dv(value_for(rng, n.spec, ok, flat=True)))
    elif k in model.COMPS:
        if chance(rng, 0.7):
            n.set(model.dv(value_for(rng, n.spec, ok)))
        else:
            for c in n.children():
                fill(rng, c, ok)
    elif k == 'JoinedString':
        n.set(pick(rng, [u'', u'a', u'a,b', u'1,2', u'x']))
    elif k in model.SEQS:
        for _ in range(some(rng, 0, 3 if depth < 2 else 2)):
            fill(rng, n.blank_member(), ok, depth + 1)
    else:
        for s in n.spec['of']:
            if n.k == 'SparseDict' and s['n'] not in n.fields:
                if chance(rng, 0.6):
                    n.fields[s['n']] = model.N(s, n)
                else:
                    continue
            fill(rng, n.fields[s['n']], ok, depth + 1)


# -- schemas --------------------------------------------------------------

def scalar_spec(rng, name, kinds=model.SCALARS):
    k = pick(rng, list(kinds))
    s = {'k': k, 'n': name}
    if chance(rng, 0.3):
        s['opt'] = True
    if k == 'String' and chance(rng, 0.25):
        s['strip'] = False
    if k == 'Integer' and chance(rng, 0.25):
        s['signed'] = False
    if k == 'Boolean' and chance(rng, 0.2):
        s['true'] = u'yes'
    if k == 'Enum':
        s['enum'] = pick(rng, [[u'red', u'blue'], [u'1', u'2', u'3'],
                               [u'a b', u'x']])
    return s


def schema(rng, depth=2, name=None, kinds=None, top=False, opts=None,
           width=4):
    """A random schema spec.

    kinds: container kinds allowed; opts: set of features, among 'def'.
    """
    kinds = kinds or ('Dict', 'Form', 'SparseDict', 'List', 'Array',
                      'MultiValue', 'JoinedString', 'YMD')
    opts = opts or ()
    if depth <= 0 or (not top and chance(rng, 0.35)):
        s = scalar_spec(rng, name)
        if 'def' in opts and chance(rng, 0.4):
            s['def'] = value_for(rng, s, 0.9)
        return s
    k = pick(rng, list(kinds))
    s = {'k': k, 'n': name}
    if chance(rng, 0.2):
        s['opt'] = True
    if k == 'YMD' and 'names' in opts and chance(rng, 0.4):
        s['names'] = [u'yy', u'mm', u'dd'][:some(rng, 1, 3)]
    if k in ('Dict', 'Form', 'SparseDict'):
        names = list(NAMES)
        rng.shuffle(names)
        s['of'] = [schema(rng, depth - 1, names[i], kinds, False, opts, width)
                   for i in range(some(rng, 1, width))]
        r = rng.random()
        if r < 0.15:
            s['policy'] = 'duck'
        elif r < 0.25:
            s['policy'] = 'strict'
        if k == 'SparseDict' and chance(rng, 0.4):
            s['minf'] = True
    elif k == 'List':
        r = rng.random()
        if r < 0.4:
            s['of'] = [schema(rng, depth - 1, pick(rng, [None, u'm', u'i']),
                              kinds, False, opts, width)]
        elif r < 0.7:
            s['of'] = [scalar_spec(rng, pick(rng, [None, u'm', u'i']))]
        else:
            names = list(NAMES)
            rng.shuffle(names)
            s['of'] = [schema(rng, depth - 1, names[i], kinds, False, opts,
                              width) for i in range(some(rng, 2, 3))]
        if chance(rng, 0.3):
            s['prune'] = False
        if chance(rng, 0.2):
            s['max'] = some(rng, 1, 5)
    elif k in ('Array', 'MultiValue'):
        s['of'] = [scalar_spec(rng, pick(rng, [None, None, u'm']))]
        if chance(rng, 0.3):
            s['prune'] = False
    elif k == 'JoinedString':
        s['of'] = [scalar_spec(rng, None, ('String', 'Integer', 'String'))]
        r = rng.random()
        if r < 0.2:
            s['sepr'] = u'; '
        elif r < 0.35:
            s['sepre'] = u'\\s*[,;]\\s*'
        if chance(rng, 0.3):
            s['prune'] = False
    if 'def' in opts and chance(rng, 0.35) and k not in model.COMPS:
        d = value_for(rng, s, 0.9)
        if k == 'List' and chance(rng, 0.5):
            d = some(rng, 0, 3)
        elif isinstance(d, (int, type(None))) or \
                isinstance(d, unicode):
            d = None
        if d is not None and default_ok(s, d):
            s['def'] = d
    return s


def default_ok(spec, d):
    """Defaults that set() refuses are not generated."""
    n = model.N(spec)
    try:
        if isinstance(d, int):
            return True
        x = model.dv(d)
        if spec['k'] in ('Array', 'MultiValue', 'JoinedString'):
            return isinstance(x, (list, tuple))
        n.set(x)
        return True
    except model.ModelError:
        return False


def top_schema(rng, depth=2, kinds=None, opts=None, width=4, root=None):
    """A mapping (usually) at the top."""
    k = root or pick(rng, ['Dict', 'Form', 'Dict', 'Form', 'SparseDict',
                           'List'])
    kk = dict(k=k)
    s = schema(rng, depth, pick(rng, [None, None, u'f', u'form']), (k,),
               True, opts, width)
    names = list(NAMES)
    rng.shuffle(names)
    if k in model.MAPS:
        s['of'] = [schema(rng, depth - 1, names[i], kinds, False, opts, width)
                   for i in range(some(rng, 2, width + 1))]
    else:
        s['of'] = [schema(rng, depth - 1, names[i], kinds, False, opts, width)
                   for i in range(some(rng, 1, 3))]
    s.pop('def', None)
    return s


def walk(spec):
    yield spec
    for c in spec.get('of') or ():
        for x in walk(c):
            yield x


def echo_names(rng, spec):
    """Names that repeat the name of what is above, or almost."""
    for s in walk(spec):
        of = s.get('of') or ()
        if s['k'] in ('Dict', 'SparseDict', 'Form'):
            mine = s.get('n')
            pool = [u'a', u'b', u'aa', u'x', u'A', u'ab']
            rng.shuffle(pool)
            names = pool[:len(of)]
            if mine is not None and mine not in names and of:
                names[0] = mine
            rng.shuffle(names)
            for c, n in zip(of, names):
                c['n'] = n
        elif of and len(of) == 1 and chance(rng, 0.6):
            of[0]['n'] = s.get('n')
    return spec


# -- building real classes --------------------------------------------------

def callback(name):
    s = core.Sim.active
    if s is not None:
        s.cb(name)


def point(fl):
    """A compound of two numbers that calls back."""

    class Point(fl.Compound):

        def __compound_init__(cls):
            cls.field_schema = [fl.Integer.named(u'px'),
                                fl.Integer.named(u'py')]

        def compose(self):
            callback('compose')
            p = (self[u'px'].value, self[u'py'].value)
            if None in p:
                return u'', None
            callback('composed')
            return u'%dx%d' % p, p

        def explode(self, value):
            callback('explode')
            try:
                if isinstance(value, unicode):
                    a, b = value.split(u'x')
                elif value is None:
                    a = b = None
                else:
                    a, b = value
            except (TypeError, ValueError):
                a = b = None
            self[u'px'].set(a)
            callback('half')
            self[u'py'].set(b)
            callback('exploded')
    return Point


def build(spec, W, classes=None, extra=None):
    """The real schema for *spec* in world *W*.

    extra(spec, cls) may derive further (validators, properties...).
    classes: if given, filled with id(spec) -> class.
    """
    fl = W.fl
    k, name = spec['k'], spec.get('n')
    kids = [build(c, W, classes, extra) for c in spec.get('of') or ()
            if not c.get('anon')]
    for c in spec.get('of') or ():
        if c.get('anon'):
            # fields of a Dict that of() makes by itself
            kids += [build(x, W, classes, extra) for x in c['of']]
    kw = {}
    if spec.get('opt'):
        kw['optional'] = True
    if spec.get('def') is not None:
        kw['default'] = model.dv(spec['def'])
    if 'prune' in spec:
        kw['prune_empty'] = spec['prune']
    if k == 'Form':
        members = {}
        for c in kids:
            if all([ord(ch) < 128 for ch in c.name]):
                members[str(c.name)] = c
        rest = [c for c in kids if str(c.name.encode('utf-8')) not in members]
        if rest:
            members['field_schema'] = rest
        cls = type(fl.Form)('F', (fl.Form,), members)
    elif k == 'YMD':
        cls = fl.DateYYYYMMDD
        if spec.get('names'):
            kw['field_schema'] = [fl.Integer.named(n) for n in spec['names']]
    elif k == 'PT':
        cls = point(fl)
    elif k == 'Cons':
        cls = fl.Constrained
        kw['child_type'] = fl.Integer
        kw['valid_value'] = lambda el, v: v is not None and 0 <= v <= 10
    elif k == 'Enum':
        cls = fl.Enum.valued(*spec['enum'])
    else:
        cls = getattr(fl, k)
    if name is not None:
        cls = cls.named(name)
    if k in ('Dict', 'SparseDict', 'List', 'Array', 'MultiValue'):
        cls = cls.of(*kids)
    if k == 'JoinedString' and kids:
        cls = cls.of(*kids)
    if k == 'String' and 'strip' in spec:
        kw['strip'] = spec['strip']
    if 'signed' in spec:
        kw['signed'] = spec['signed']
    if 'true' in spec:
        kw['true'] = spec['true']
    if 'policy' in spec:
        kw['policy'] = spec['policy']
    if spec.get('minf'):
        kw['minimum_fields'] = 'required'
    if 'max' in spec:
        kw['maximum_set_flat_members'] = spec['max']
    if 'sepr' in spec:
        kw['separator'] = spec['sepr']
    if 'sepre' in spec:
        import re
        kw['separator_regex'] = re.compile(spec['sepre'])
    if kw:
        cls = cls.using(**kw)
    if extra is not None:
        cls = extra(spec, cls) or cls
    if classes is not None:
        classes[id(spec)] = cls
    return cls
