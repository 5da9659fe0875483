# -*- coding: utf-8 -*-
"""M03: templates shared by renders."""
import re

import gen
import history as hi
import model
from base import Prop, Ctx, register, ntasks
from history import hooked
from model import N, ModelError, dv
from p_markup import (DEFAULTS, TEXTS, filters_for, tag_model, esc,
                      text_of_contents)

SPEC = {'k': 'Form', 'n': u'f', 'of': [
    {'k': 'String', 'n': u'a', 'hook': True},
    {'k': 'Integer', 'n': u'b'},
    {'k': 'Boolean', 'n': u'c'},
    {'k': 'Array', 'n': u'd', 'prune': False,
     'of': [{'k': 'String', 'n': None}]},
    {'k': 'PT', 'n': u'p'},
    {'k': 'YMD', 'n': u'y'},
    {'k': 'List', 'n': u'rows', 'of': [{'k': 'String', 'n': u'r',
                                        'hook': True}]}]}
FIELDS = [u'a', u'a', u'a', u'b', u'c', u'd', u'p', u'y']
DASH = ('auto_name', 'auto_value', 'auto_domid', 'auto_for', 'auto_tabindex',
        'auto_filter', 'domid_format')
OUT = re.compile(u'<(\\w+)((?:\\s+[\\w.:-]+="[^"]*")*)\\s*(/?)>')
ATTR = re.compile(u'([\\w.:-]+)="([^"]*)"')
WATCHED = ('input', 'textarea', 'select', 'option', 'label', 'button', 'form',
           'div')


def source(nodes, row=False):
    """The template text of a list of nodes."""
    out = []
    for n in nodes:
        t = n['t']
        if t == 'text':
            out.append(n['x'])
            continue
        if t in ('with', 'set'):
            a = []
            for k, v in sorted(n['s'].items()):
                if k == 'filters':
                    v = u'F(*fs)' if v == 'fs' else \
                        u'F(%s)' % u', '.join(map(unicode, v))
                a.append((k.replace(u'_', u'-') if k in DASH else k,
                          unicode(v)))
            tag = u'form:' + t
        elif t == 'if':
            tag, a = u'py:if', [(u'test', n['x'])]
        elif t == 'for':
            tag, a = u'py:for', [(u'each', u"row in form['rows']")]
        else:
            tag = n['tag']
            a = sorted(n['a'].items())
            if n.get('b') is not None:
                b = n['b']
                a.append((u'form:bind', u'row' if b == 'row' else
                          u"el(form['%s'])" % b if n.get('el') else
                          u"form['%s']" % b))
            a += [(u'form:' + k.replace(u'_', u'-'), v)
                  for k, v in sorted(n['auto'].items())]
            if n.get('if'):
                a.append((u'py:if', n['if']))
            if n.get('each'):
                a.append((u'py:for', u'x in v'))
        text = u''.join([u' %s="%s"' % (k, esc(v)) for k, v in a])
        body = source(n['c']) if n.get('c') else u''
        out.append(u'<%s%s>%s</%s>' % (tag, text, body, tag) if body else
                   u'<%s%s/>' % (tag, text))
    return u''.join(out)


class Render(object):
    """The tags a template should give, by a model of it."""

    def __init__(self, c, data, form, n):
        self.c, self.data, self.form, self.n = c, data, form, n
        self.frames = [dict(DEFAULTS)]
        self.out = []

    def subst(self, text):
        """An interpolated text."""
        d = self.data

        def one(m):
            x = m.group(1)
            k = re.match(u'^(?:[gh]\\()?([vc])\\[(\\d)\\]\\)?$', x)
            if k:
                return d[str(k.group(1))][int(k.group(2))]
            return self.x
        return re.sub(u'\\$\\{([^}]*)\\}', one, text)

    def test(self, x):
        return self.data['flags'][int(re.search('\\d', x).group())]

    def walk(self, nodes, select=None):
        for n in nodes:
            t = n['t']
            if t == 'with':
                new = str_keys(n['s'])
                if new.get('filters') == 'fs':
                    new['filters'] = self.data['fs']
                self.frames.append(dict(self.frames[-1], **new))
                self.walk(n.get('c') or (), select)
                self.frames.pop()
            elif t == 'set':
                self.frames[-1].update(str_keys(n['s']))
            elif t == 'if':
                if self.test(n['x']):
                    self.walk(n['c'], select)
            elif t == 'for':
                for r in self.n.fields[u'rows'].kids:
                    self.row = r
                    self.walk(n['c'], select)
            elif t == 'tag':
                for self.x in self.data['v'] if n.get('each') else [None]:
                    if n.get('if') and not self.test(n['if']):
                        continue
                    self.tag(n, select)

    def tag(self, n, select):
        b, bind = n.get('b'), None
        if b is not None:
            bind = self.row if b == 'row' else self.n.fields[b]
        elif select is not None and n['tag'] == 'option':
            bind = select
        a = dict((k, self.subst(v)) for k, v in n['a'].items())
        text = None
        if n.get('c'):
            text = u'' if [x for x in n['c'] if x['t'] != 'text'] else \
                u''.join([self.subst(x['x']) for x in n['c']])
        if bind is not None or n['auto']:
            m = dict(a, **dict((str(k), self.subst(v))
                               for k, v in n['auto'].items()))
            a, text, un = tag_model(self.c, self.frames[-1], n['tag'], bind,
                                    m, text, bind and self.text(bind))
        else:
            un = ()
        leaf = not n.get('c') or not [x for x in n['c'] if x['t'] != 'text']
        self.out.append((n['tag'], a, un, text_of_contents(text)
                         if leaf else None))
        if not leaf:
            self.walk(n['c'], bind if n['tag'] == 'select' else select)

    def text(self, n):
        if n.k == 'Array':
            return self.form[n.spec['n']].u
        return n.u()


def str_keys(d):
    return dict((str(k), v) for k, v in d.items())


class TmplCtx(Ctx):

    def __init__(self, P, plan, sim, W):
        import genshi_shim
        Ctx.__init__(self, plan, sim, W)
        if not hasattr(W, 'genshi'):
            W.want_genshi()
        self.shim = genshi_shim
        self.filters = filters_for(sim)
        self.spec = hi.normalise(SPEC)
        self.cls = gen.build(self.spec, W, {}, hooked(lambda: sim))
        self.shared = [self.template(t) for t in plan['templates']]
        self.solo = {}
        self.skip = set()
        for ops in plan['tasks']:
            for op in ops:
                self.reference(op)

    def template(self, nodes):
        return self.shim.template(source(nodes), self.W.genshi.setup)

    def escaped(self, u):
        return self.W.generic.Markup(esc(u).replace(u'&quot;', u'"'))

    def form(self, op):
        n, e = N(self.spec), self.cls()
        n.set(dv(op['v']))
        e.set(dv(op['v']))
        return e, n

    def data(self, op, e):
        sim, shim = self.sim, self.shim

        def g(x):
            sim.cb('stream')
            yield shim.TEXT, x[:1], (None, 1, 1)
            sim.cb('stream')
            yield shim.TEXT, x[1:], (None, 1, 1)

        def h(x):
            sim.cb('expression')
            return x

        def el(x):
            sim.cb('element')
            return x
        return dict(form=e, v=op['d']['v'], c=op['d']['c'],
                    fs=op['d']['fs'], flags=op['d']['flags'], g=g, h=h,
                    el=el, F=lambda *i: [self.filters[x][1] for x in i])

    def render(self, tmpl, op, e):
        events = []
        for ev in tmpl.generate(**self.data(op, e)):
            self.sim.cb('event')
            events.append(ev)
            if op.get('stop') and len(events) >= op['stop']:
                return None
        return self.shim.Stream(events).render('xhtml', encoding=None)

    def key(self, op):
        return repr([op['t'], op['v'], op['d']])

    def reference(self, op):
        """What the template gives alone, parsed afresh."""
        e, n = self.form(op)
        out = self.render(self.template(self.plan['templates'][op['t']]),
                          dict(op, stop=None), e)
        self.solo[self.key(op)] = out
        r = Render(self, op['d'], e, n)
        r.walk(self.plan['templates'][op['t']])
        d = self.differs(out, r.out)
        if d:
            self.sim.fail('markup', 'template %s for %r gives %s: %s' % (
                source(self.plan['templates'][op['t']]), op['v'], out, d))

    def differs(self, out, want):
        got = []
        for m in OUT.finditer(out):
            if m.group(1) in WATCHED:
                end = out.find(u'<', m.end())
                got.append((m.group(1), dict(
                    (k, self.shim.unesc(v))
                    for k, v in ATTR.findall(m.group(2)) if k != u'xmlns'),
                    self.shim.unesc(out[m.end():end])))
        got = got[1:]
        if [g[0] for g in got] != [w[0] for w in want]:
            return 'should have the tags %s' % [w[0] for w in want]
        for (tag, a, text), (_, b, unsure, body) in zip(got, want):
            for k in set(a) | set(b):
                if k not in unsure and a.get(k) != b.get(k):
                    return '%s of %s is %r, should be %r' % (
                        k, tag, a.get(k), b.get(k))
            if body is not None:
                w = self.shim.unesc(body) if '&' in body and \
                    tag == 'textarea' else body
                if text.strip() != w.strip() and text.strip() != body.strip():
                    return 'contents of %s is %r, should be %r' % (
                        tag, text, body)


@register
class M03(Prop):
    ID = 'M03'
    CHUNK = 25
    QUICK = 15
    STUB = ('the XML parser and the expression compiler of genshi, which do '
            'not work under this Jython; the rest of genshi is real but not '
            'preempted between its own statements')
    RULE = ('1 or 2 random templates (tags bound and unbound, form:with, '
            'form:set, loops, conditions, interpolated attributes, nested '
            'selects, filters) parsed once and rendered 2 to 8 times by 1 to '
            '3 tasks with different forms, switched at every statement of '
            'flatland, callback and event; 25% abandoned part way or failing '
            'in an expression, stream, filter or conversion; every output is '
            'compared with that of the template parsed afresh and rendered '
            'alone, and that with a model of the template; non-trivial: at '
            'least 3 complete renders of one template.')

    def nontrivial(self, plan, sim):
        return sim.probes.get('rendered', 0) >= 3

    # -- plans ----------------------------------------------------------

    def settings(self, rng):
        s = {}
        for i in range(gen.some(rng, 1, 3)):
            k = gen.pick(rng, ['auto_name', 'auto_value', 'auto_domid',
                               'auto_for', 'auto_tabindex', 'auto_tabindex',
                               'tabindex', 'tabindex', 'auto_filter',
                               'domid_format'])
            s[k] = gen.pick(rng, [1, 5, 10, -1, 0]) if k == 'tabindex' else \
                gen.pick(rng, [u'%s', u'x%s', u'id-%s']) \
                if k == 'domid_format' else \
                gen.pick(rng, [u'on', u'on', u'off', u'auto'])
        return s

    def attr(self, rng):
        return gen.pick(rng, [u'${v[0]}', u'${g(v[1])}', u'x${v[2]}',
                              u'${h(v[1])}', u'${v[0]}-${g(v[2])}', u'plain',
                              u'a&b'])

    def tag(self, rng, row, depth):
        tag = gen.pick(rng, ['input'] * 5 + ['textarea', 'select', 'select',
                             'label', 'button', 'form', 'div', 'option'])
        if depth <= 0 and tag in ('form', 'div', 'select'):
            tag = 'input'
        n = {'t': 'tag', 'tag': tag, 'a': {}, 'auto': {}}
        if gen.chance(rng, 0.85):
            n['b'] = 'row' if row and gen.chance(rng, 0.6) else \
                gen.pick(rng, FIELDS)
            n['el'] = gen.chance(rng, 0.2)
        if tag == 'input' and gen.chance(rng, 0.7):
            n['a']['type'] = gen.pick(rng, [u'text', u'checkbox', u'radio',
                                            u'checkbox', u'password'])
        kind = n['a'].get('type')
        if kind in (u'checkbox', u'radio') and gen.chance(rng, 0.9) or \
                gen.chance(rng, 0.15):
            n['a']['value'] = self.attr(rng)
        for k in ('title', 'class', 'style'):
            if gen.chance(rng, 0.15):
                n['a'][k] = self.attr(rng)
        if gen.chance(rng, 0.08):
            n['a']['name'] = self.attr(rng)
        if gen.chance(rng, 0.1):
            n['a']['checked'] = u'checked'
        for k in DASH[:6]:
            if gen.chance(rng, 0.08):
                n['auto'][k] = gen.pick(rng, [
                    u'on', u'on', u'off', u'auto', u'${c[0]}', u'o${c[1]}',
                    u'${h(c[0])}'])
        if gen.chance(rng, 0.1):
            n['if'] = u'flags[%d]' % rng.randrange(3)
        if tag in ('form', 'div'):
            n['c'] = self.nodes(rng, depth - 1, row)
        elif tag == 'select':
            n['c'] = []
            for i in range(gen.some(rng, 1, 3)):
                o = {'t': 'tag', 'tag': 'option', 'a': {}, 'auto': {}}
                if gen.chance(rng, 0.5):
                    o['a']['value'] = gen.pick(rng, [
                        u'${v[0]}', u'${g(v[1])}', u'1', u'a'])
                if gen.chance(rng, 0.2):
                    o['if'] = u'flags[%d]' % rng.randrange(3)
                if gen.chance(rng, 0.2):
                    o['b'] = gen.pick(rng, FIELDS)
                if not o['a'] or gen.chance(rng, 0.5):
                    o['c'] = [{'t': 'text', 'x': gen.pick(rng, [
                        u'${v[0]}', u' ${v[1]} ', u'${g(v[1])}', u'1',
                        u'x${h(v[2])}'])}]
                if gen.chance(rng, 0.2):
                    o['each'] = True
                    if gen.chance(rng, 0.6):
                        o['a']['value'] = u'${x}'
                        o['c'] = [{'t': 'text', 'x': gen.pick(rng, [
                            u'${x}', u'-${x}-', u'${v[0]}'])}]
                r = rng.random()
                if r < 0.1:
                    o = {'t': 'with', 's': self.settings(rng), 'c': [o]}
                elif r < 0.2:
                    o = {'t': 'if', 'x': u'flags[%d]' % rng.randrange(3),
                         'c': [o]}
                n['c'].append(o)
        elif gen.chance(rng, 0.35) or tag in ('label', 'option'):
            n['c'] = [{'t': 'text', 'x': gen.pick(rng, [
                u'${v[0]}', u'${g(v[1])}', u'x${v[2]}', u'text'])}]
            if tag == 'input':
                n.pop('c')
        return n

    def nodes(self, rng, depth, row=False):
        out = []
        for i in range(gen.some(rng, 1, 3)):
            r = rng.random()
            if depth > 0 and r < 0.25:
                s = self.settings(rng)
                if gen.chance(rng, 0.25):
                    s.update(auto_filter=u'on', filters=gen.pick(rng, [
                        'fs', [gen.pick(rng, [0, 1, 3])
                               for _ in range(gen.some(rng, 1, 2))]]))
                out.append({'t': 'with', 's': s,
                            'c': self.nodes(rng, depth - 1, row)})
            elif r < 0.33:
                out.append({'t': 'set', 's': self.settings(rng)})
            elif depth > 0 and r < 0.4:
                out.append({'t': 'if', 'x': u'flags[%d]' % rng.randrange(3),
                            'c': self.nodes(rng, depth - 1, row)})
            elif depth > 0 and not row and r < 0.52:
                out.append({'t': 'for',
                            'c': self.nodes(rng, depth - 1, True)})
            else:
                out.append(self.tag(rng, row, depth))
        return out

    def gen(self, rng):
        n = ntasks(rng, 0.25, 3)
        root = {'t': 'tag', 'tag': 'input', 'a': {}, 'auto': {}, 'b': u'a'}
        templates = [[root] + self.nodes(rng, 3) + self.nodes(rng, 2)
                     for _ in range(gen.pick(rng, [1, 1, 2]))]
        tasks = []
        for i in range(n):
            ops = []
            for j in range(gen.some(rng, 2, 4)):
                op = {'o': 'render', 't': rng.randrange(len(templates)),
                      'v': self.values(rng),
                      'd': {'v': [gen.pick(rng, TEXTS).strip()
                                  for _ in range(3)],
                            'c': [gen.pick(rng, [u'on', u'off', u'auto']),
                                  gen.pick(rng, [u'n', u'ff'])],
                            'fs': [gen.pick(rng, [0, 1, 3])
                                   for _ in range(gen.some(rng, 1, 2))],
                            'flags': [gen.chance(rng, 0.6)
                                      for _ in range(3)]}}
                r = rng.random()
                if r < 0.1:
                    op['stop'] = gen.some(rng, 1, 25)
                elif r < 0.25:
                    op['f'] = gen.cb_fault(rng, gen.pick(rng, [1, 4, 20]),
                                           site=gen.pick(rng, [
                                               None, 'event', 'stream',
                                               'expression', 'element',
                                               'filter', 'filtered']))
                ops.append(op)
            tasks.append(ops)
        return {'templates': templates, 'tasks': tasks,
                'sched': gen.sched(rng, n)}

    def values(self, rng):
        text = lambda: gen.pick(rng, TEXTS)
        return {'d': [[u'a', text()], [u'b', gen.pick(rng, [1, 12, u'x', None])],
                      [u'c', gen.chance(rng, 0.5)],
                      [u'd', {'l': [text() for _ in range(gen.some(rng, 0, 3))]}],
                      [u'rows', {'l': [text() for _ in range(
                          gen.some(rng, 0, 3))]}],
                      [u'p', gen.pick(rng, [u'1x2', u'3x4', None])],
                      [u'y', gen.pick(rng, [u'2001-02-03', None])]]}

    # -- runs -----------------------------------------------------------

    def setup(self, plan, sim, W):
        return TmplCtx(self, plan, sim, W)

    def do(self, c, i, op):
        e, n = c.form(op)
        r = c.sim.op('render', op.get('f'), lambda: c.render(
            c.shared[op['t']], op, e))
        if c.sim.fault_hit:
            c.sim.probe('failed')
            if r[0] == 'ok':
                c.sim.fail('swallowed', 'a render went on after %r' % (
                    op['f'],))
            return
        if r[0] != 'ok':
            c.sim.fail('error', 'rendering %s for %r raised %r' % (
                source(c.plan['templates'][op['t']]), op['v'], r[1]))
        if op.get('stop') and r[1] is None:
            c.sim.probe('abandoned')
            return
        self.same(c, op, r[1])
        c.sim.probe('rendered')

    def same(self, c, op, out):
        want = c.solo[c.key(op)]
        if out != want:
            c.sim.fail('output', 'template %s for %r gave %s, alone it gives '
                       '%s' % (source(c.plan['templates'][op['t']]), op['v'],
                               out, want))

    def finish(self, c):
        for ops in c.plan['tasks']:
            op = dict(ops[0], stop=None)
            self.same(c, op, c.render(c.shared[op['t']], op, c.form(op)[0]))
