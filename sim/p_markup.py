# -*- coding: utf-8 -*-
"""M01, M02: markup generators."""
import re

import gen
import history as hi
import model
from base import Prop, Ctx, register, ntasks
from history import pairs, hooked
from model import N, ModelError, dv

MAYBE = 'maybe'
DEFAULTS = {'auto_name': True, 'auto_value': True, 'auto_domid': False,
            'auto_for': False, 'auto_tabindex': False, 'auto_filter': False,
            'tabindex': 0, 'domid_format': u'f_%s', 'filters': (),
            'markup_wrapper': 'Markup', 'ordered_attributes': True}
AUTOS = sorted(k for k in DEFAULTS if k.startswith('auto_'))
TAGS = {'name': ('input', 'button', 'select', 'textarea', 'form'),
        'value': ('input', 'button', 'option', 'textarea'),
        'id': ('input', 'button', 'select', 'textarea'),
        'for': ('label',),
        'tabindex': ('input', 'button', 'select', 'textarea')}
PAIRED = ('form', 'textarea', 'select', 'option')
NAMED = ('form', 'input', 'textarea', 'button', 'select', 'option', 'label')


def trool(v):
    if v is True or v is False or v == MAYBE:
        return v
    if not isinstance(v, basestring):
        v = unicode(v)
    v = v.lower()
    if v in (u'1', u'true', u't', u'on', u'yes'):
        return True
    if v in (u'0', u'false', u'nil', u'off', u'no'):
        return False
    return MAYBE


def esc(s):
    return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(
        u'>', u'&gt;').replace(u'"', u'&quot;')


def unesc(s):
    """The text some markup stands for, or None."""
    if re.search(u'&(?!amp;|lt;|gt;|quot;)|[<>]', s):
        return None
    return s.replace(u'&lt;', u'<').replace(u'&gt;', u'>').replace(
        u'&quot;', u'"').replace(u'&amp;', u'&')


class Raw(object):
    """Something that knows its markup, and calls back when asked."""

    def __init__(self, text, sim):
        self.text = text
        self.sim = sim

    def __html__(self):
        self.sim.cb('html')
        return esc(self.text)


def filters_for(sim):
    def f0(tagname, attributes, contents, context, bind):
        attributes[u'data-f'] = u'<"%s&>' % tagname
        return contents

    def f1(tagname, attributes, contents, context, bind):
        attributes[u'class'] = u'bound' if bind is not None else u'free'
        return contents
    f1.tags = (u'input', u'div', u'option')

    def f2(tagname, attributes, contents, context, bind):
        return text_of_contents(contents) + u'!'
    f2.tags = (u'label', u'button', u'p', u'textarea')

    def f3(tagname, attributes, contents, context, bind):
        attributes.pop(u'id', None)
        if context['tabindex'] > 900:
            attributes[u'title'] = u'far'
        return contents

    def live(f):
        def fn(tagname, attributes, contents, context, bind):
            sim.cb('filter')
            contents = f(tagname, attributes, contents, context, bind)
            sim.cb('filtered')
            return contents
        fn.__dict__.update(f.__dict__)
        return fn
    return [(f, live(f)) for f in (f0, f1, f2, f3)]


def tag_model(c, S, tag, n, attrs, contents, u=None):
    """(attributes, contents, unsure attributes) of a tag, as documented.

    S: the settings in effect, of which tabindex is updated.
    n: model node of the bound element or None; u: its text.
    """
    a = dict(attrs)
    unsure = set()

    def toggle(key):
        v = trool(a.pop(key, MAYBE))
        forced = v is True
        if v == MAYBE:
            v = trool(S[key])
        if v == MAYBE:
            v = DEFAULTS[key]
        return v, forced
    name = n.flat_name() if n is not None else None
    on, forced = toggle('auto_name')
    if on and name and (forced or
                        a.get('name') is None and tag in TAGS['name']):
        a['name'] = name
    on, forced = toggle('auto_value')
    if on and n is not None and (forced or tag in TAGS['value']):

        def match(flag, text):
            if n.k in ('Array', 'MultiValue', 'JoinedString'):
                hit = text in [x.u() for x in n.kids]
            else:
                hit = text == u
            if hit:
                a[flag] = flag
            else:
                a.pop(flag, None)
        kind = a.get('type') or u''
        if tag == 'input' and kind in (u'checkbox', u'radio'):
            v = a.get('value')
            if v is None and kind == u'checkbox' and n.k == 'Boolean':
                v = a['value'] = n.spec.get('true') or u'1'
            if v is not None:
                match('checked', v)
        elif tag == 'input' and kind in (u'password', u'file', u'image'):
            if forced:
                a['value'] = u
        elif tag == 'option':
            v = a.get('value')
            if v is None:
                v = contents or u''
                v = v.strip() if isinstance(v, unicode) else v
            if isinstance(v, unicode):
                match('selected', v)
            else:
                unsure.add('selected')
        elif tag == 'textarea':
            if contents is None or forced:
                contents = c.escaped(u)
        elif a.get('value') is None or forced:
            a['value'] = u

    def domid():
        base = name if n is not None else a.get('name')
        if not base:
            return None
        if tag == 'input' and a.get('type') in (u'checkbox', u'radio'):
            suffix = re.sub(u'[^A-Za-z0-9_:.-]', u'', a.get('value') or u'')
            if suffix:
                base += u'_' + suffix
        return S['domid_format'] % base
    for key, attr, bound in (('auto_domid', 'id', False),
                             ('auto_for', 'for', True)):
        on, forced = toggle(key)
        if on and (n is not None or not bound) and (
                forced or a.get(attr) is None and tag in TAGS[attr]):
            i = domid()
            if i:
                a[attr] = i
    on, forced = toggle('auto_tabindex')
    t = S['tabindex']
    if on and t != 0 and (forced or a.get('tabindex') is None and
                          tag in TAGS['tabindex']):
        a['tabindex'] = unicode(t)
        if t > 0:
            S['tabindex'] = t + 1
    on, forced = toggle('auto_filter')
    if on:
        for i in S['filters']:
            f = c.filters[i][0]
            if getattr(f, 'tags', None) and tag not in f.tags:
                continue
            contents = f(tag, a, contents, S, n)
    return a, contents, unsure


def text_of(v):
    if not v:
        return u''
    if isinstance(v, Raw):
        return v.text
    if hasattr(v, '__html__'):
        return unesc(v.__html__())
    return v


def order_key(k):
    fixed = [u'type', u'name', u'value']
    return (0, fixed.index(k), k) if k in fixed else (1, 0, k)


class MarkCtx(Ctx):

    def __init__(self, P, plan, sim, W):
        Ctx.__init__(self, plan, sim, W)
        self.filters = filters_for(sim)
        Markup = W.generic.Markup

        class Safe(unicode):
            def __html__(self):
                return unicode(self)
        self.wrappers = {'Markup': Markup, 'Safe': Safe}
        self.spec = hi.normalise(plan['schema'])
        self.cls = gen.build(self.spec, W, {}, hooked(lambda: sim))
        self.trees = [self.tree(v) for v in plan['trees']]
        self.gens = {}
        self.own = {}

    def tree(self, v):
        n, e = N(self.spec), self.cls()
        try:
            n.set(dv(v))
        except ModelError:
            return e, N(self.spec)
        e.set(dv(v))
        return e, n

    def escaped(self, u):
        return self.W.generic.Markup(esc(u).replace(u'&quot;', u'"'))

    def value(self, v):
        """An attribute value of the plan."""
        if isinstance(v, dict):
            if 'm' in v:
                return self.W.generic.Markup(esc(v['m']))
            return Raw(v['h'], self.sim)
        return v

    def settings(self, s, real):
        out = {}
        for k, v in s.items():
            k = str(k)
            if real:
                if k == 'filters':
                    v = [self.filters[i][1] for i in v]
                elif k == 'markup_wrapper':
                    v = self.wrappers[v]
            out[k] = v
        return out


class Gen(object):
    """A generator and its model: a stack of settings."""

    def __init__(self, real, markup, base):
        self.real = real
        self.markup = markup
        self.frames = [base]
        self.open = []

    @property
    def top(self):
        return self.frames[-1]


TEXTS = [u'a', u'b', u'1', u'', u'x&y', u'<b>', u'"q"', u"it's", u'\xe9t\xe9',
         u'a b', u'&amp;', u'&lt;', u'</textarea>', u']]>', u'12', u'red']


class MarkProp(Prop):
    CHUNK = 40
    QUICK = 64
    TAGP = 0.5

    def nontrivial(self, plan, sim):
        p = sim.probes
        return p.get('tags', 0) > 2

    def setting(self, rng):
        s = {}
        for i in range(gen.some(rng, 1, 3)):
            k = gen.pick(rng, AUTOS + ['auto_tabindex', 'tabindex', 'tabindex',
                                       'auto_filter', 'filters', 'filters',
                                       'domid_format', 'markup_wrapper',
                                       'ordered_attributes'])
            if k in AUTOS:
                v = gen.pick(rng, [True, True, False, u'on', u'off', u'auto',
                                   u'On', u'no', u'junk'])
            elif k == 'tabindex':
                v = gen.pick(rng, [0, 1, 5, 100, -1, 999])
            elif k == 'filters':
                v = [rng.randrange(4) for _ in range(gen.some(rng, 0, 2))]
            elif k == 'domid_format':
                v = gen.pick(rng, [u'f_%s', u'%s', u'id-%s-x', u'<%s>'])
            elif k == 'markup_wrapper':
                v = gen.pick(rng, ['Markup', 'Safe'])
            else:
                v = gen.chance(rng, 0.5)
            s[k] = v
        return s

    def tagop(self, rng):
        tag = gen.pick(rng, ['input'] * 7 + ['textarea', 'textarea', 'select',
                             'option', 'option', 'button', 'label', 'form',
                             'div', 'p', 'Input', 'TEXTAREA'])
        a = {}
        text = lambda: gen.pick(rng, TEXTS)

        def any_value():
            r = rng.random()
            if r < 0.7:
                return text()
            if r < 0.8:
                return None
            return {gen.pick(rng, ['m', 'h']): text()}
        if tag == 'input' and gen.chance(rng, 0.75):
            a['type'] = gen.pick(rng, [
                u'text', u'hidden', u'submit', u'radio', u'checkbox',
                u'checkbox', u'radio', u'password', u'file', u'image'])
        if gen.chance(rng, 0.35):
            a['value'] = text()
        elif a.get('type') in (u'radio', u'checkbox') or tag == 'option':
            if gen.chance(rng, 0.7):
                a['value'] = {'of': rng.randrange(4)}
        for k in ('name', 'id', 'tabindex', 'for_', 'checked', 'selected'):
            if gen.chance(rng, 0.12):
                a[k] = {'name': u'n', 'id': u'i', 'tabindex': u'7',
                        'for_': u'f'}.get(k, u'')
        for k in ('class_', 'title', 'style'):
            if gen.chance(rng, 0.12):
                a[k] = any_value()
        for k in AUTOS:
            if gen.chance(rng, 0.13):
                a[k] = gen.pick(rng, [True, u'on', False, u'off', u'auto'])
        op = {'o': 'tag', 'tag': tag, 'a': a,
              'b': rng.randrange(1000) if gen.chance(rng, 0.8) else None,
              't': rng.randrange(3), 'own': gen.chance(rng, 0.3)}
        if gen.chance(rng, 0.25):
            op['c'] = gen.pick(rng, [u'', u'text', u' a ', u'1', {'m': u'<b>'},
                                     {'h': u'a&b'}, None])
        op['via'] = gen.pick(rng, ['attr', 'attr', 'attr', 'tag', 'open',
                                   'bare'])
        return op

    def gen(self, rng):
        n = ntasks(rng, 0.35, 3)
        kinds = ('Array', 'MultiValue', 'JoinedString', 'YMD', 'PT', 'List',
                 'Dict')
        spec = gen.top_schema(rng, gen.pick(rng, [1, 1, 2]), kinds, width=6)
        for s in gen.walk(spec):
            s.pop('def', None)
            if s['k'] in model.SCALARS and gen.chance(rng, 0.2):
                s['hook'] = True
        tasks = []
        for i in range(n):
            ops = [{'o': 'new', 'g': 0, 'markup': 'xhtml',
                    's': self.setting(rng)}]
            if gen.chance(rng, 0.5):
                ops[0]['s'].update(auto_filter=True, filters=[
                    rng.randrange(4) for _ in range(gen.some(rng, 1, 2))])
            depth = 0
            for j in range(gen.some(rng, 8, 22)):
                g = 0 if gen.chance(rng, 0.75) else 1
                r = rng.random()
                if r < self.TAGP:
                    op = self.tagop(rng)
                    if gen.chance(rng, 0.15):
                        op['f'] = gen.cb_fault(rng, gen.pick(rng, [1, 2, 4]))
                else:
                    r = rng.random()
                    if r < 0.35 or depth == 0 and r < 0.5:
                        op = {'o': 'begin', 's': {} if gen.chance(rng, 0.25) else
                              self.setting(rng)}
                        depth += 1
                    elif r < 0.6:
                        op = {'o': 'set', 's': self.setting(rng)}
                    elif r < 0.85:
                        op = {'o': 'end'}
                        depth = max(0, depth - 1)
                    elif r < 0.9:
                        op = {'o': 'new', 's': self.setting(rng),
                              'markup': gen.pick(rng, [
                                  'xhtml', 'xml', 'html', 'html', 'sgml'])}
                    elif r < 0.95:
                        op = {'o': 'close'}
                    else:
                        op = {'o': 'elset',
                              'v': gen.value_for(rng, spec, 0.9)}
                    if 's' in op and gen.chance(rng, 0.1):
                        op['s'][gen.pick(rng, ['autoname', 'tab_index',
                                               'xml', 'auto'])] = True
                op['g'] = g
                ops.append(op)
            tasks.append(ops)
        return {'schema': spec, 'tasks': tasks,
                'trees': [gen.value_for(rng, spec, 0.95) for _ in range(3)],
                'sched': gen.sched(rng, n)}

    def setup(self, plan, sim, W):
        return MarkCtx(self, plan, sim, W)

    # -- operations ---------------------------------------------------------

    def do(self, c, i, op):
        f = getattr(self, 'op_' + op['o'])
        g = c.gens.get((i, op['g']))
        if op['o'] not in ('new', 'elset') and g is None:
            return
        f(c, i, op, g)
        for k in (0, 1):
            g = c.gens.get((i, k))
            if g is not None:
                self.settings_hold(c, g, op)

    def settings_hold(self, c, g, op):
        for k in sorted(g.top):
            want, got = g.top[k], g.real[k]
            if k == 'filters':
                want = [c.filters[x][1] for x in want]
                ok = list(got) == want
            elif k == 'markup_wrapper':
                ok = got is c.wrappers[want]
            elif k in AUTOS:
                got = got if got is True or got is False else \
                    MAYBE if got is c.W.util.Maybe else got
                ok = trool(got) == trool(want)
            else:
                ok = got == want
            if not ok:
                c.sim.fail('setting', 'after %s %s: %s is %r, should be %r' % (
                    op['o'], dict((x, op[x]) for x in op if x in 'sgc'), k,
                    got, want))
            if k not in g.real:
                c.sim.fail('setting', '%s is gone' % k)

    def expect(self, c, r, want, what):
        """want: None for success, else the names of possible errors."""
        if want is None:
            if r[0] != 'ok':
                c.sim.fail('error', '%s raised %r' % (what, r[1]))
        elif r[0] == 'ok':
            c.sim.fail('accepted', '%s should raise %s' % (what, want))
        elif type(r[1]).__name__ not in want.split('|'):
            c.sim.fail('error', '%s should raise %s, raised %r' % (
                what, want, r[1]))

    def op_new(self, c, i, op, g):
        if (i, op['g']) in c.gens and op['g'] == 0 and c.gens[
                i, 0].frames[1:]:
            return
        s, bad = op['s'], [k for k in op['s'] if k not in DEFAULTS]
        kw = c.settings(s, True)
        r = c.sim.op('new', None, lambda: c.W.markup.Generator(
            op['markup'], **kw))
        want = 'TypeError|KeyError' if bad or op['markup'] == 'sgml' else None
        self.expect(c, r, want, 'Generator(%r, **%r)' % (op['markup'], s))
        if want is None:
            base = dict(DEFAULTS)
            base.update(c.settings(s, False))
            c.gens[i, op['g']] = Gen(r[1], op['markup'], base)

    def op_begin(self, c, i, op, g):
        s, bad = op['s'], [k for k in op['s'] if k not in DEFAULTS]
        kw = c.settings(s, True)
        r = c.sim.op('begin', None, lambda: g.real.begin(**kw))
        self.expect(c, r, 'KeyError|TypeError' if bad else None,
                    'begin(**%r)' % s)
        if not bad:
            top = dict(g.top)
            top.update(c.settings(s, False))
            g.frames.append(top)
            self.empty(c, g, r[1])
        else:
            c.sim.probe('refused')

    def empty(self, c, g, x):
        if x != u'' or not isinstance(x, c.wrappers[g.top['markup_wrapper']]):
            c.sim.fail('result', 'begin, set or end gave %r' % (x,))

    def op_set(self, c, i, op, g):
        s, bad = op['s'], [k for k in op['s'] if k not in DEFAULTS]
        kw = c.settings(s, True)
        r = c.sim.op('set', None, lambda: g.real.set(**kw))
        self.expect(c, r, 'KeyError|TypeError' if bad else None,
                    'set(**%r)' % s)
        new = dict(g.top)
        new.update(c.settings(s, False))
        if bad:
            # each of the others may have been set, or not
            c.sim.probe('refused')
            for k in s:
                if k in DEFAULTS:
                    real = c.settings(s, True)[k]
                    got = g.real[k]
                    if k in AUTOS:
                        got = MAYBE if got is c.W.util.Maybe else got
                        same = trool(got) == trool(real)
                    else:
                        same = got == real
                    if same:
                        g.top[k] = new[k]
            return
        g.frames[-1] = new
        self.empty(c, g, r[1])

    def op_end(self, c, i, op, g):
        r = c.sim.op('end', None, g.real.end)
        if len(g.frames) == 1:
            self.expect(c, r, 'RuntimeError', 'an unmatched end()')
            c.sim.probe('refused')
            return
        self.expect(c, r, None, 'end()')
        g.frames.pop()
        self.empty(c, g, r[1])
        c.sim.probe('ended')

    def op_elset(self, c, i, op, g):
        c.own[i] = c.tree(op['v'])

    def op_close(self, c, i, op, g):
        if not g.open:
            return
        tag = g.open.pop()
        t = self.tagobj(c, g, tag)
        r = c.sim.op('close', None, t.close)
        self.expect(c, r, None, 'close')
        if r[1] != u'</%s>' % tag.lower():
            c.sim.fail('markup', 'close of %s gave %r' % (tag, r[1]))

    def tagobj(self, c, g, tag):
        if tag in NAMED:
            return getattr(g.real, tag)
        return g.real.tag(tag)

    def text(self, e, n):
        if n.k in model.MAPS or n.k in ('List', 'Array'):
            return e.u
        return n.u()

    def op_tag(self, c, i, op, g):
        tag = op['tag'].lower()
        e = n = None
        if op['b'] is not None and op['via'] != 'bare':
            tree = c.own.get(i) if op['own'] else None
            if tree is None:
                tree = c.trees[op['t'] % len(c.trees)]
            ps = pairs(*tree)
            e, n = ps[op['b'] % len(ps)]
        a = {}
        for k, v in op['a'].items():
            if isinstance(v, dict) and 'of' in v:
                if n is None:
                    v = u'z'
                elif n.k in model.SEQS and n.kids and n.k != 'List':
                    v = n.kids[v['of'] % len(n.kids)].u()
                else:
                    v = self.text(e, n)
            a[str(k)] = c.value(v)
        kw = dict(a)
        contents = None
        if 'c' in op:
            contents = kw['contents'] = c.value(op['c'])
        via = op['via']
        if via == 'bare':
            a, contents, kw = {}, None, {}
        got = []

        def fn():
            if via == 'tag':
                t = g.real.tag(op['tag'], e, **kw)
                return t if isinstance(t, unicode) else t.__html__()
            t = self.tagobj(c, g, op['tag'])
            got.append(t)
            if via == 'open':
                return t.open(e, **kw)
            if via == 'bare':
                return t.__html__()
            return t(e, **kw)
        S = dict(g.top)
        before = S['tabindex']
        m = dict((unicode(k).rstrip(u'_'), v) for k, v in a.items())
        r = c.sim.op('tag', op.get('f'), fn)
        want, body, unsure = tag_model(
            c, S, tag, n, m, contents, n and self.text(e, n))
        what = '%s %s(%s, %r, %r)' % (via, op['tag'], n and (
            n.k, n.flat_name(), n.u()), op['a'], op.get('c'))
        if c.sim.fault_hit:
            c.sim.probe('failed')
            if r[0] == 'ok':
                c.sim.fail('swallowed', '%s: an exception of a callback did '
                           'not reach the caller' % what)
            if g.real['tabindex'] in (before, S['tabindex']):
                g.top['tabindex'] = g.real['tabindex']
            return
        self.expect(c, r, None, what)
        g.top['tabindex'] = S['tabindex']
        c.sim.probe('tags')
        if via == 'open':
            g.open.append(op['tag'])
            if text_of_contents(got[0].contents) != text_of_contents(body):
                c.sim.fail('contents', '%s: contents is %r, should be %r' % (
                    what, got[0].contents, body))
        if not isinstance(r[1], c.wrappers[g.top['markup_wrapper']]):
            c.sim.fail('wrapper', '%s gave %r' % (what, type(r[1])))
        d = self.compare(g, unicode(r[1]), tag, want, body, unsure, via)
        if d:
            c.sim.fail('markup', '%s with %s gave %r: %s' % (
                what, dict((k, v) for k, v in S.items()
                           if v != DEFAULTS[k]), r[1], d))

    def compare(self, g, out, tag, want, body, unsure, via):
        m = re.match(u'<([a-z]+)((?: [^\\s=<>"]+="[^"<>]*")*)( /)?>', out)
        if not m:
            return 'not well formed'
        if m.group(1) != tag:
            return 'not a %s' % tag
        ps = re.findall(u' ([^\\s=<>"]+)="([^"]*)"', m.group(2))
        keys = [k for k, v in ps]
        if len(set(keys)) < len(keys):
            return 'an attribute twice'
        got = {}
        for k, v in ps:
            got[k] = unesc(v)
            if got[k] is None:
                return 'the value of %s is not escaped' % k
        want = dict((unicode(k), text_of(v)) for k, v in want.items())
        for k in set(got) | set(want):
            if k not in unsure and got.get(k) != want.get(k):
                return 'attribute %s is %r, should be %r' % (
                    k, got.get(k), want.get(k))
        if g.top['ordered_attributes'] and \
                keys != sorted(keys, key=order_key):
            return 'attributes are out of order'
        rest = out[m.end():]
        if via == 'open':
            return 'more than a start tag' if rest or m.group(3) else None
        body = text_of_contents(body)
        if not body and m.group(3):
            if tag in PAIRED or g.markup == 'html':
                return 'is not a pair'
        elif not body and not rest:
            # only html may leave an element open, and only a void one
            if g.markup != 'html' or tag != 'input':
                return 'is not closed'
        else:
            if not body and g.markup == 'html' and tag == 'input':
                return 'a void element with an end tag'
            if m.group(3) or rest != body + u'</%s>' % tag:
                return 'the contents are not %r' % body
            if not body and tag not in PAIRED and g.markup != 'html':
                return 'is not abbreviated'


def text_of_contents(v):
    if not v:
        return u''
    if hasattr(v, '__html__'):
        return unicode(v.__html__())
    return unicode(v)


@register
class M01(MarkProp):
    ID = 'M01'
    TAGP = 0.35
    RULE = ('1 to 3 tasks, each with up to two generators, random histories '
            'of begin, set, end, new generators and tags (15% with a '
            'failing filter, conversion or __html__), 10% unknown settings '
            'and unmatched ends; after every operation every setting of the '
            'generators is compared with a stack of settings; non-trivial: '
            'several tags, an end and a refusal or failure.')

    def nontrivial(self, plan, sim):
        p = sim.probes
        return p.get('tags', 0) > 1 and p.get('ended', 0) and (
            p.get('refused') or p.get('failed'))


@register
class M02(MarkProp):
    ID = 'M02'
    TAGP = 0.8
    RULE = ('1 to 3 tasks, each with up to two generators, random tags of '
            'all kinds bound to elements of random trees with texts full of '
            'markup, explicit, automatic and forced attributes, all '
            'settings, filters, 15% failing in a filter, conversion or '
            '__html__; the output is parsed and compared with a model of '
            'the documented transformations; non-trivial: at least three '
            'tags compared.')
