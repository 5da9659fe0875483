# -*- coding: utf-8 -*-
"""A small independent model of schemas and elements.

Nothing here imports the package under test.  A schema is a JSON spec:

  {"k": kind, "n": name or None, "opt": bool, "of": [child specs], ...}

and an element is a node (class N below) holding plain Python data.
"""
import datetime
import re

SCALARS = ('String', 'Integer', 'Float', 'Boolean', 'Date', 'Time',
           'DateTime', 'Enum', 'Cons')
MAPS = ('Dict', 'Form', 'SparseDict')
SEQS = ('List', 'Array', 'MultiValue', 'JoinedString')
COMPS = ('YMD', 'PT')


class ModelError(Exception):
    """The operation raises; args[0] names the exception type."""


class Bad(object):
    """A value whose text form cannot be computed."""

    def __unicode__(self):
        raise ValueError('no text')
    __str__ = __unicode__

    def __repr__(self):
        return '<Bad>'


def dv(v):
    """Decode a value of a plan."""
    if isinstance(v, dict):
        (tag, x), = v.items()
        if tag == 'l':
            return [dv(i) for i in x]
        if tag == 't':
            return tuple([dv(i) for i in x])
        if tag == 'd':
            return dict([(k, dv(i)) for k, i in x])
        if tag == 'p':
            return [(k, dv(i)) for k, i in x]
        if tag == 'b':
            return x.encode('latin-1')
        if tag == 'date':
            return datetime.date(*x)
        if tag == 'dt':
            return datetime.datetime(*x)
        if tag == 'time':
            return datetime.time(*x)
        if tag == 'bad':
            return Bad()
        raise ValueError(tag)
    return v


def text(v):
    """The text of a rejected value."""
    if v is None:
        return u''
    if isinstance(v, str):
        return v.decode('ascii', 'replace')
    return unicode(v)


class Reject(Exception):
    pass


DATE = re.compile(ur'^(\d{4})-(\d{2})-(\d{2})$')
TIME = re.compile(ur'^(\d{2}):(\d{2}):(\d{2})$')
DT = re.compile(ur'^(\d{4})-(\d{2})-(\d{2}) (\d{2}):(\d{2}):(\d{2})$')


def _temporal(v, rx, typ):
    if v is None or isinstance(v, typ):
        return v
    if isinstance(v, basestring):
        m = rx.match(v.strip())
        if m:
            try:
                return typ(*[int(g) for g in m.groups()])
            except ValueError:
                pass
    raise Reject()


def adapt(spec, v):
    k = spec['k']
    if k == 'String':
        if v is None:
            return None
        if isinstance(v, str):
            try:
                v = v.decode('ascii')
            except UnicodeDecodeError:
                raise Reject()
        v = unicode(v)
        return v.strip() if spec.get('strip', True) else v
    if k in ('Integer', 'Float', 'Cons'):
        if v is None and k != 'Cons':
            return None
        if v is None:
            raise Reject()
        if isinstance(v, basestring):
            v = v.strip()
        try:
            n = float(v) if k == 'Float' else int(v)
        except (ValueError, TypeError, ArithmeticError):
            raise Reject()
        if spec.get('signed') is False and n < 0:
            raise Reject()
        if k == 'Cons' and not (0 <= n <= 10):
            raise Reject()
        return n
    if k == 'Boolean':
        if not isinstance(v, basestring):
            return bool(v)
        if v in (u'on', u'true', u'True', u'1', spec.get('true', u'1')):
            return True
        if v in (u'off', u'false', u'False', u'0', u'',
                 spec.get('false', u'')):
            return False
        raise Reject()
    if k == 'Date':
        return _temporal(v, DATE, datetime.date)
    if k == 'Time':
        return _temporal(v, TIME, datetime.time)
    if k == 'DateTime':
        return _temporal(v, DT, datetime.datetime)
    if k == 'Enum':
        if v is None:
            raise Reject()
        if isinstance(v, str):
            try:
                v = v.decode('ascii')
            except UnicodeDecodeError:
                raise Reject()
        v = unicode(v).strip()
        if v not in spec['enum']:
            raise Reject()
        return v
    raise KeyError(k)


def serialize(spec, v):
    k = spec['k']
    if v is None:
        return u''
    if k in ('String', 'Enum'):
        return v
    if k in ('Integer', 'Cons'):
        return spec.get('fmt', u'%d') % v
    if k == 'Float':
        return u'%f' % v
    if k == 'Boolean':
        return spec.get('true', u'1') if v else spec.get('false', u'')
    if k == 'Date':
        return u'%04d-%02d-%02d' % (v.year, v.month, v.day)
    if k == 'Time':
        return u'%02d:%02d:%02d' % (v.hour, v.minute, v.second)
    if k == 'DateTime':
        return u'%04d-%02d-%02d %02d:%02d:%02d' % (
            v.year, v.month, v.day, v.hour, v.minute, v.second)
    raise KeyError(k)


def sub(pairs, name, sep):
    """The pairs addressing *name* or something below it, with the name
    taken off; None stands for the name itself."""
    if name is None:
        return [(k, v) for k, v in pairs if k is not None]
    out = []
    for k, v in pairs:
        if k is not None and k.startswith(name + sep):
            out.append((k[len(name + sep):], v))
    return out


# the fields of the compound that sim/gen.py defines
PT_FIELDS = [{'k': 'Integer', 'n': u'px'}, {'k': 'Integer', 'n': u'py'}]


class N(object):
    """A model element."""

    def __init__(self, spec, parent=None, slot=None):
        self.spec = spec
        self.k = spec['k']
        self.name = spec.get('n')
        self.parent = parent
        self.slot = slot          # index in a List
        self.v = None
        self.ustr = u''
        self.kids = []
        self.fields = {}
        if self.k in MAPS or self.k in COMPS:
            self.reset()

    # structure
    def reset(self):
        self.fields = {}
        for s in self.child_specs():
            if self.k != 'SparseDict' or (
                    self.spec.get('minf') and not s.get('opt')):
                self.fields[s['n']] = N(s, self)

    def child_specs(self):
        if self.k == 'YMD':
            opt = self.spec.get('opt')
            out = [{'k': 'Integer', 'n': n} for n in
                   self.spec.get('names') or ()]
            for n, f in ((u'year', u'%04d'), (u'month', u'%02d'),
                         (u'day', u'%02d'))[len(out):]:
                out.append({'k': 'Integer', 'n': n, 'opt': opt, 'fmt': f})
            return out
        if self.k == 'PT':
            return PT_FIELDS
        return self.spec['of']

    def member_spec(self):
        of = self.spec.get('of') or [{'k': 'String', 'n': None}]
        if len(of) == 1:
            return of[0]
        return {'k': 'Dict', 'n': None, 'of': of}

    def children(self):
        if self.k in SEQS:
            return list(self.kids)
        return [self.fields[s['n']] for s in
                (self.child_specs() if self.k in MAPS or self.k in COMPS
                 else ()) if s['n'] in self.fields]

    def all_children(self):
        out, q = [], self.children()
        while q:
            e = q.pop(0)
            out.append(e)
            q.extend(e.children())
        return out

    # value
    def value(self):
        k = self.k
        if k in SCALARS:
            return self.v
        if k in MAPS:
            return dict([(n, f.value()) for n, f in self.fields.items()])
        if k in ('List', 'Array'):
            return [c.value() for c in self.kids]
        if k == 'MultiValue':
            return self.kids[0].value() if self.kids else None
        if k == 'JoinedString':
            return self.spec.get('sepr', u',').join([c.u() for c in self.kids])
        if k in COMPS:
            return self.compose()[1]

    def u(self):
        k = self.k
        if k in SCALARS:
            return self.ustr
        if k == 'MultiValue':
            return self.kids[0].u() if self.kids else u''
        if k == 'JoinedString':
            return self.value()
        if k in COMPS:
            return self.compose()[0]
        return None               # text of containers is not modelled

    def compose(self):
        p = [self.fields[s['n']].v for s in self.child_specs()]
        if self.k == 'PT':
            if None in p:
                return u'', None
            return u'%dx%d' % tuple(p), tuple(p)
        if None in p:
            return u'', None
        try:
            d = datetime.date(*p)
        except (ValueError, OverflowError):
            return u'', None
        if not (0 <= p[0] <= 9999):
            return u'', None
        return serialize({'k': 'Date'}, d), d

    def is_empty(self):
        k = self.k
        if k == 'String':
            return not self.v and self.ustr == u''
        if k in SCALARS:
            return self.v is None and self.ustr == u''
        if k in ('Dict', 'Form'):
            return False
        if k == 'SparseDict':
            return not self.fields
        if k in COMPS:
            return all([f.is_empty() for f in self.fields.values()])
        return not self.kids

    # assignment
    def set(self, x):
        k = self.k
        if k in SCALARS:
            try:
                v = adapt(self.spec, x)
            except Reject:
                self.ustr = text(x)
                self.v = None
                return False
            u = serialize(self.spec, v)
            self.v, self.ustr = v, u
            return True
        if k == 'JoinedString':
            if isinstance(x, (list, tuple)):
                vals = list(x)
            elif isinstance(x, basestring):
                if self.spec.get('sepre'):
                    vals = re.split(self.spec['sepre'], x)
                else:
                    vals = x.split(self.spec.get('sepr', u','))
            else:
                try:
                    vals = list(x)
                except TypeError:
                    raise ModelError('TypeError')
            kids, ok = [], True
            for i in vals:
                if not i and self.spec.get('prune', True):
                    continue
                c = N(self.member_spec(), self)
                ok = c.set(i) and ok
                kids.append(c)
            self.kids = kids
            return ok
        if k in SEQS:
            self.kids = []
            try:
                it = iter(x)
            except TypeError:
                return False
            kids, ok = [], True
            for i in it:
                c = N(self.member_spec(), self)
                try:
                    ok = c.set(i) and ok
                except ModelError, e:
                    if e.args[0] == 'TypeError':
                        return False
                    raise
                kids.append(c)
            self.kids = kids
            self.renumber()
            return ok
        if k in MAPS:
            try:
                pairs = x.items() if hasattr(x, 'items') else \
                    [(a, b) for a, b in x]
            except (TypeError, ValueError), e:
                raise ModelError(type(e).__name__)
            self.reset()
            specs = dict([(s['n'], s) for s in self.spec['of']])
            policy = self.spec.get('policy', 'subset')
            ok, seen = True, set()
            for key, val in pairs:
                if key not in specs:
                    if policy == 'duck':
                        continue
                    raise ModelError('KeyError')
                if key not in self.fields:
                    self.fields[key] = N(specs[key], self)
                ok = self.fields[key].set(val) and ok
                seen.add(key)
            if policy == 'strict' and seen != set(specs):
                raise ModelError('TypeError')
            return ok
        if k == 'YMD':
            try:
                d = adapt({'k': 'Date'}, x)
            except Reject:
                d = None
            for s, a in zip(self.child_specs(), ('year', 'month', 'day')):
                self.fields[s['n']].set(None if d is None else getattr(d, a))
            return True
        if k == 'PT':
            try:
                if isinstance(x, unicode):
                    a, b = x.split(u'x')
                elif x is None:
                    a = b = None
                else:
                    a, b = x
            except (TypeError, ValueError):
                a = b = None
            self.fields[u'px'].set(a)
            self.fields[u'py'].set(b)
            return True
        raise KeyError(k)

    def renumber(self):
        if self.k == 'List':
            for i, c in enumerate(self.kids):
                c.slot = i

    def blank_member(self):
        c = N(self.member_spec(), self)
        self.kids.append(c)
        self.renumber()
        return c

    def set_flat(self, pairs, sep=u'_'):
        """pairs: keys relative to the parent of this element."""
        k, name = self.k, self.name
        if k in SCALARS or k == 'JoinedString':
            for key, v in pairs:
                if key == name:
                    self.set(v)
                    break
            return
        if k in ('Array', 'MultiValue'):
            self.kids = []
            child = self.member_spec()['n']
            for key, v in pairs:
                if name:
                    if key == name or key == name + sep:
                        rest = None
                    elif key is not None and key.startswith(name + sep):
                        rest = key[len(name + sep):]
                    else:
                        continue
                else:
                    rest = key or None
                if rest != child:
                    continue
                if v == u'' and self.spec.get('prune', True) and not (
                        key is None and not name and not child):
                    # (an unnamed Array of unnamed members in a List keeps
                    # empty strings)
                    continue
                self.blank_member().set(v)
            return
        if k == 'List':
            self.kids = []
            prune = self.spec.get('prune', True)
            limit = self.spec.get('max', 1024)
            got = {}
            for key, v in sub(pairs, name or None, sep):
                if v == u'' and prune:
                    continue
                head, s, rest = key.partition(sep)
                if not re.match(ur'^\d+\Z', head, re.U):
                    continue
                got.setdefault(int(head), []).append((rest or None, v))
            if prune:
                for i in sorted(got)[:limit]:
                    self.blank_member().set_flat(got[i], sep)
            elif got:
                for i in range(min(max(got) + 1, limit)):
                    c = self.blank_member()
                    if i in got:
                        c.set_flat(got[i], sep)
            return
        if k in MAPS or k in COMPS:
            mine = sub(pairs, name, sep)
            for s in self.child_specs():
                f = s['n']
                acc = [(key, v) for key, v in mine
                       if key == f or key.startswith(f + sep)]
                if acc:
                    if f not in self.fields:
                        self.fields[f] = N(s, self)
                    self.fields[f].set_flat(acc, sep)
            return
        raise KeyError(k)

    def set_default(self):
        d = self.spec.get('def')
        d = dv(d) if d is not None else None
        if self.k in SCALARS:
            self.set(d)
        elif self.k == 'List':
            if d is None:
                return
            self.kids = []
            if isinstance(d, int):
                for _ in range(d):
                    self.blank_member().set_default()
            else:
                self.set(d)
        elif self.k in SEQS:
            if d is not None:
                self.kids = []
                for x in d:
                    self.blank_member().set(x)
        elif self.k == 'SparseDict':
            if d is not None:
                self.set(d)
            else:
                self.reset()
                for f in self.fields.values():
                    f.set_default()
        else:
            if d is not None:
                self.set(d)
            else:
                for f in self.children():
                    f.set_default()

    # names
    def path_names(self):
        out = []
        e = self
        while e is not None:
            if e.name is not None:
                out.append(e.name)
            if e.slot is not None:
                out.append(unicode(e.slot))
            e = e.parent
        return out[::-1]

    def flat_name(self, sep=u'_'):
        return sep.join(self.path_names())

    def flattens(self):
        return self.k in SCALARS or self.k in ('JoinedString', 'YMD', 'PT')

    def flatten(self, sep=u'_'):
        out, q = [], [self]
        while q:
            e = q.pop(0)
            if e.flattens():
                out.append((e.flat_name(sep), e.u()))
            if e.k != 'JoinedString':
                q.extend(e.children())
        return out


def canon(pairs):
    """Pairs in an order that ignores everything but the order of values
    under one key."""
    return sorted(pairs, key=lambda p: p[0])


# -- comparing with real elements -----------------------------------------

def same_value(a, b):
    if type(a) in (dict,) and isinstance(b, dict):
        return set(a) == set(b) and all([same_value(a[k], b[k]) for k in a])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(
            [same_value(x, y) for x, y in zip(a, b)])
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b and (a is None) == (b is None)


def diff(el, node, where='root'):
    """None, or how the real element differs from the model node."""
    k = node.k
    if el.name != node.name:
        return '%s: name %r, expected %r' % (where, el.name, node.name)
    if k in SCALARS or k in ('MultiValue', 'JoinedString', 'YMD', 'PT'):
        if not same_value(el.value, node.value()):
            return '%s: value %r, expected %r' % (where, el.value,
                                                  node.value())
        if el.u != node.u():
            return '%s: u %r, expected %r' % (where, el.u, node.u())
    if k in SEQS:
        got = list(el)
        if len(el) != len(got):
            return '%s: len %d but %d members' % (where, len(el), len(got))
        if len(got) != len(node.kids):
            return '%s: %d members, expected %d' % (where, len(got),
                                                    len(node.kids))
        for i, (a, b) in enumerate(zip(got, node.kids)):
            d = diff(a, b, '%s[%d]' % (where, i))
            if d:
                return d
    elif k in MAPS or k in COMPS:
        if set(el.keys()) != set(node.fields):
            return '%s: keys %r, expected %r' % (
                where, sorted(el.keys()), sorted(node.fields))
        for n in node.fields:
            d = diff(el[n], node.fields[n], '%s.%s' % (where, n))
            if d:
                return d
    if not same_value(el.value, node.value()):
        return '%s: value %r, expected %r' % (where, el.value, node.value())
    if bool(el.is_empty) != bool(node.is_empty()):
        return '%s: is_empty %r, expected %r' % (where, el.is_empty,
                                                 node.is_empty())
    return None


def structure(el, spec=None, W=None, parent=None, where='root', classes=None):
    """None, or what is structurally wrong with a real element tree: types,
    parents, key sets.  *classes* maps id(spec) to the real class."""
    k = spec['k']
    if not isinstance(el, W.schema.Element):
        return '%s: %r is not an element' % (where, type(el))
    if classes is not None:
        c = classes.get(id(spec))
        if c is not None and not isinstance(el, c):
            return '%s: is a %r, not of its schema' % (where, type(el))
    if parent is not None:
        p = el.parent
        if p is not parent and isinstance(p, W.schema.Slot):
            p = p.parent
        if p is not parent:
            return '%s: parent is %r' % (where, type(el.parent))
    if k in SEQS:
        node = N(spec)
        ms = node.member_spec()
        for i, c in enumerate(list(el)):
            d = structure(c, ms, W, el, '%s[%d]' % (where, i), classes)
            if d:
                return d
            if k == 'List' and c.fq_name().split('.')[-1] != str(i):
                return '%s[%d]: says it is %r' % (where, i, c.fq_name())
    elif k in MAPS or k in COMPS:
        node = N(spec)
        names = [s['n'] for s in node.child_specs()]
        keys = list(el.keys())
        if k == 'SparseDict':
            if not set(keys) <= set(names):
                return '%s: keys %r outside the schema' % (where, keys)
            if spec.get('minf'):
                need = [s['n'] for s in spec['of'] if not s.get('opt')]
                if not set(need) <= set(keys):
                    return '%s: required keys missing from %r' % (where, keys)
        elif set(keys) != set(names):
            return '%s: keys %r, schema has %r' % (where, keys, names)
        for s in node.child_specs():
            if s['n'] in keys:
                d = structure(el[s['n']], s, W, el,
                              '%s.%s' % (where, s['n']), classes)
                if d:
                    return d
                if el[s['n']].name != s['n']:
                    return '%s.%s: is named %r' % (where, s['n'],
                                                   el[s['n']].name)
    return None
