# -*- coding: utf-8 -*-
"""What genshi cannot do under Jython here: parse XML (there is no expat) and
compile its expressions (its AST rewriting fails).  Templates are parsed by a
small parser into the same events, and expressions are compiled as they are,
their names looked up in the template context.  Everything else of genshi is
real."""
import __builtin__
import re

from genshi.core import (START, END, TEXT, START_NS, END_NS, Attrs, QName,
                         Stream)
from genshi.template import MarkupTemplate
import genshi.template.eval as ge

TOKEN = re.compile(u'<(/?)([\\w.:-]+)((?:\\s+[\\w.:-]+="[^"]*")*)\\s*(/?)>'
                   u'|([^<]+)')
ATTR = re.compile(u'([\\w.:-]+)="([^"]*)"')


def unesc(s):
    return s.replace(u'&lt;', u'<').replace(u'&gt;', u'>').replace(
        u'&quot;', u'"').replace(u'&#34;', u'"').replace(u'&amp;', u'&')


def parse(text):
    out, stack, ns = [], [], {}
    pos, line = 0, 1

    def q(name, attr=False):
        if u':' in name:
            p, l = name.split(u':', 1)
            return QName(ns[p] + u'}' + l)
        if u'' in ns and not attr:
            return QName(ns[u''] + u'}' + name)
        return QName(name)
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise ValueError(text[pos:pos + 60])
        where = (None, line, 0)
        line += m.group(0).count(u'\n')
        pos = m.end()
        if m.group(5) is not None:
            out.append((TEXT, unesc(m.group(5)), where))
            continue
        if m.group(1):
            tag, decl = stack.pop()
            if tag != q(m.group(2)):
                raise ValueError('%s closed by %s' % (tag, m.group(2)))
            out.append((END, tag, where))
            out.extend([(END_NS, p, where) for p in decl])
            continue
        attrs, decl = [], []
        for k, v in ATTR.findall(m.group(3)):
            v = unesc(v)
            if k == u'xmlns' or k.startswith(u'xmlns:'):
                ns[k[6:]] = v
                decl.append(k[6:])
                out.append((START_NS, (k[6:], v), where))
            else:
                attrs.append((k, v))
        tag = q(m.group(2))
        out.append((START, (tag, Attrs([(q(k, True), v)
                                        for k, v in attrs])), where))
        if m.group(4):
            out.append((END, tag, where))
            out.extend([(END_NS, p, where) for p in decl])
        else:
            stack.append((tag, decl))
    return Stream(out)


class Names(object):

    def __init__(self, data):
        self.data = data

    def __getitem__(self, k):
        v = self.data.get(k, ge.UNDEFINED)
        if v is ge.UNDEFINED:
            if hasattr(__builtin__, k):
                return getattr(__builtin__, k)
            raise KeyError(k)
        return v


def _init(self, source, filename=None, lineno=-1, lookup='strict',
          xform=None):
    self.source = source
    self.ast = None
    self.code = compile(source, '<expr>', 'eval')
    self._globals = None


def _evaluate(self, data):
    return eval(self.code, {}, Names(data))


ge.Expression.__init__ = _init
ge.Expression.evaluate = _evaluate

HEAD = (u'<div xmlns="http://www.w3.org/1999/xhtml" '
        u'xmlns:form="http://ns.discorporate.us/flatland/genshi" '
        u'xmlns:py="http://genshi.edgewall.org/">')


def template(body, setup):
    t = MarkupTemplate(parse(HEAD + body + u'</div>'))
    setup(t)
    t.stream        # prepared once, before it is shared
    return t
