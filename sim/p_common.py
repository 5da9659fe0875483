# -*- coding: utf-8 -*-
"""Validators, snapshots and canonical results used by several properties."""
import datetime

import gen
import model
from core import SimAbort


# -- canonical forms ----------------------------------------------------------

def canon(v, W=None, depth=0):
    """A comparable, printable form of any result."""
    if depth > 12:
        return '...'
    if v is None or isinstance(v, (bool, int, long, float, unicode)):
        if isinstance(v, int) and type(v) not in (int, bool, long):
            return '<%r>' % (v,)
        return v
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, (datetime.date, datetime.time)):
        return ['when', repr(v)]
    if isinstance(v, dict):
        return ['dict', sorted([[canon(k, W, depth + 1),
                                 canon(x, W, depth + 1)]
                                for k, x in v.items()], key=repr)]
    if W is not None and isinstance(v, W.schema.Element):
        return ['el', type(v).__name__, v.name, canon(v.value, W, depth + 1),
                canon(v.u, W, depth + 1)
                if not isinstance(v, W.fl.Container) else None]
    if isinstance(v, (list, tuple)):
        return [type(v) is list and 'list' or 'tuple',
                [canon(x, W, depth + 1) for x in v]]
    if isinstance(v, BaseException):
        return ['exc', type(v).__name__]
    if isinstance(v, type):
        return ['class', v.__name__]
    return ['obj', type(v).__name__]


def tree(el, W, full=True):
    """Everything observable about an element tree, canonically."""
    fl = W.fl
    out = {'t': type(el).__name__, 'n': el.name, 'v': canon(el.value, W),
           'valid': canon(el.valid), 'err': list(el.errors),
           'warn': list(el.warnings), 'opt': bool(el.optional),
           'empty': bool(el.is_empty), 'label': el.label,
           'raw': canon(el.raw if not isinstance(el.raw, W.schema.Element)
                        else 'element', W)}
    if not isinstance(el, fl.Container) or isinstance(
            el, (fl.Compound, fl.JoinedString, fl.MultiValue)):
        out['u'] = el.u
    if full:
        out['props'] = canon(dict(el.properties.items()))
        out['flat'] = el.flattened_name()
        out['fq'] = el.fq_name()
    if isinstance(el, fl.Sequence):
        out['kids'] = [tree(c, W, full) for c in el]
    elif isinstance(el, fl.Mapping):
        out['kids'] = sorted([[k, tree(el[k], W, full)] for k in el.keys()])
    return out


def first_diff(a, b, where=''):
    """Where two canonical forms first differ."""
    if type(a) != type(b) and not (isinstance(a, unicode)
                                   and isinstance(b, unicode)):
        return '%s: %r / %r' % (where, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s: only on one side' % (where, k)
            d = first_diff(a[k], b[k], '%s.%s' % (where, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %r / %r' % (where, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, '%s[%d]' % (where, i))
            if d:
                return d
        return None
    if a != b:
        return '%s: %r / %r' % (where, a, b)
    return None


# -- validators -----------------------------------------------------------

def scalar_validators(rng, spec):
    """Descriptors of library validators fit for a scalar."""
    k = spec['k']
    out = []
    n = gen.pick(rng, [0, 1, 1, 1, 2])
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            out.append(['Present'])
        elif r < 0.3:
            out.append(['Converted'])
        elif r < 0.4:
            out.append(['NoLongerThan', gen.some(rng, 0, 4)])
        elif r < 0.5:
            out.append(['LongerThan', gen.some(rng, 0, 4)])
        elif r < 0.6:
            out.append(['LengthBetween', gen.some(rng, 0, 2),
                        gen.some(rng, 2, 5)])
        elif r < 0.7:
            out.append(['ValueIn', gen.pick(rng, [
                [1, 2, 3], [u'x', u'on', None], [True, u'abc', 42]])])
        elif r < 0.75:
            out.append(['IsTrue'])
        elif r < 0.8:
            out.append(['IsFalse'])
        elif k in ('Integer', 'Cons', 'Float'):
            out.append(gen.pick(rng, [['ValueLessThan', 5],
                                      ['ValueAtMost', 7],
                                      ['ValueGreaterThan', 0],
                                      ['ValueAtLeast', 2],
                                      ['ValueBetween', 1, 10]]))
        elif k == 'String':
            out.append(gen.pick(rng, [['IsEmail'], ['URLValidator'],
                                      ['warn'], ['ValueIn', [u'x', u'0']]]))
        else:
            out.append(['warn'])
    return out


def add_validators(rng, spec, inseq=False, p=0.7):
    """Attach validator descriptors to a spec tree."""
    k = spec['k']
    if k in model.SCALARS:
        if rng.random() < p:
            v = scalar_validators(rng, spec)
            if inseq and rng.random() < 0.25:
                v.append(['NotDuplicated'])
            if v:
                spec['val'] = v
        return spec
    kids = spec.get('of') or []
    for c in kids:
        add_validators(rng, c, k in model.SEQS and len(kids) == 1, p)
    if k in model.SEQS and rng.random() < p * 0.7:
        a = gen.some(rng, 0, 2)
        v = [gen.pick(rng, [['HasAtLeast', a + 1], ['HasAtMost', a],
                            ['HasBetween', a, a + 1],
                            ['HasBetween', a, a]])]
        if inseq and rng.random() < 0.4:
            v.append(['NotDuplicated'])
        if k in ('List', 'Array', 'MultiValue') or True:
            spec['val'] = v
    elif k in model.MAPS:
        v = []
        sc = [c['n'] for c in kids if c['k'] in ('String', 'Integer')]
        if k != 'SparseDict' and len(sc) > 1 and rng.random() < p * 0.5:
            v.append([gen.pick(rng, ['ValuesEqual', 'UnisEqual']),
                      sc[0], sc[1]])
        if inseq and rng.random() < 0.4:
            v.append(['NotDuplicated'])
        if v:
            spec['val'] = v
    elif k == 'YMD' and rng.random() < p * 0.5:
        spec['val'] = [gen.pick(rng, [['Present'], ['Converted'], ['warn']])]
    return spec


def make_validator(d, W, cache=None):
    """The real validator of a descriptor.  One object per descriptor and
    cache, so that elements share it."""
    key = repr(d)
    if cache is not None and key in cache:
        return cache[key]
    v = W.v
    n = d[0]
    if n in ('Present', 'Converted', 'IsTrue', 'IsFalse', 'NotDuplicated',
             'IsEmail', 'URLValidator'):
        o = getattr(v, n)()
    elif n == 'ValueIn':
        o = v.ValueIn(valid_options=list(d[1]))
    elif n == 'NoLongerThan':
        o = v.NoLongerThan(d[1])
    elif n == 'LongerThan':
        o = v.LongerThan(d[1])
    elif n == 'LengthBetween':
        o = v.LengthBetween(d[1], d[2])
    elif n in ('ValueLessThan', 'ValueAtMost', 'ValueGreaterThan',
               'ValueAtLeast'):
        o = getattr(v, n)(d[1])
    elif n == 'ValueBetween':
        o = v.ValueBetween(minimum=d[1], maximum=d[2])
    elif n == 'HasAtLeast':
        o = v.HasAtLeast(minimum=d[1])
    elif n == 'HasAtMost':
        o = v.HasAtMost(maximum=d[1])
    elif n == 'HasBetween':
        o = v.HasBetween(minimum=d[1], maximum=d[2])
    elif n in ('ValuesEqual', 'UnisEqual'):
        o = getattr(v, n)(*[escape(x) for x in d[1:]])
    elif n == 'warn':
        class Warn(v.Validator):
            odd = u'%(label)s: odd value %(u)s'

            def validate(self, element, state):
                self.note_warning(element, state, 'odd')
                return True
        o = Warn()
    else:
        raise KeyError(n)
    if cache is not None:
        cache[key] = o
    return o


def escape(name):
    return name.replace(u'/', u'\\/').replace(u'[', u'\\[')


def with_validators(W, cache=None):
    """An *extra* for gen.build that attaches spec['val']."""
    def extra(spec, cls):
        if spec.get('val'):
            cls = cls.validated_by(*[make_validator(d, W, cache)
                                     for d in spec['val']])
        if spec.get('props'):
            cls = cls.with_properties(**dict(
                [(str(k), v) for k, v in spec['props']]))
        return cls
    return extra


class State(object):
    """A validation state with a language."""

    def __init__(self, lang, sim=None):
        self.lang = lang
        self.sim = sim

    def ugettext(self, text):
        if self.sim is not None:
            self.sim.cb('ugettext')
        if isinstance(text, unicode) or isinstance(text, str):
            return u'%s:%s' % (self.lang, text)
        return text

    def ungettext(self, single, plural, n):
        if self.sim is not None:
            self.sim.cb('ungettext')
        return u'%s:%s' % (self.lang, single if n == 1 else plural)
