# -*- coding: utf-8 -*-
"""Import hook: loads flatland from source with simulator yield points.

Every statement of every function of the package gets a call to a point
function in front of it, and the right-hand side of every assignment is passed
through a second one, so the simulator decides what happens before every
statement and between every read and write (a switch to another task, an
injected asynchronous exception, or nothing).  The instrumentation is done on
the syntax tree at import time: /repo is not modified and no hook in it is
needed.
"""
import ast
import imp
import os
import sys

POINT = '__sim_pt__'
VALUE = '__sim_val__'
NOFAULT = '__sim_nf__'

_code_cache = {}      # filename -> (mtime, code)
_point_ids = {}       # (file, line, kind) -> small int
point_names = []      # id -> 'file:line'


def point_id(fname, line, kind):
    key = (fname, line, kind)
    pid = _point_ids.get(key)
    if pid is None:
        pid = _point_ids[key] = len(point_names)
        point_names.append('%s:%d%s' % (fname, line, kind))
    return pid


def _call(name, args, at):
    c = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args,
                 keywords=[], starargs=None, kwargs=None)
    ast.copy_location(c, at)
    ast.fix_missing_locations(c)
    return c


_BODY_FIELDS = ('body', 'orelse', 'finalbody', 'handlers')


class _Instrument(object):

    def __init__(self, fname):
        self.fname = fname

    def point(self, stmt, nofault):
        pid = point_id(self.fname, stmt.lineno, '')
        e = ast.Expr(value=_call(NOFAULT if nofault else POINT,
                                 [ast.Num(n=pid)], stmt))
        ast.copy_location(e, stmt)
        ast.fix_missing_locations(e)
        return e

    def block(self, stmts, infunc, nofault):
        out = []
        for i, s in enumerate(list(stmts)):
            doc = (i == 0 and isinstance(s, ast.Expr)
                   and isinstance(s.value, ast.Str))
            fut = isinstance(s, ast.ImportFrom) and s.module == '__future__'
            if infunc and not doc and not fut \
                    and not isinstance(s, (ast.Global,)):
                # An exception between "lock.acquire()" and the "try:" behind
                # it, or inside a "finally:", is not one that any Python code
                # can defend against: switches happen there, faults do not.
                nf = nofault or isinstance(s, (ast.TryFinally, ast.TryExcept))
                out.append(self.point(s, nf))
            out.append(self.stmt(s, infunc, nofault))
        return out

    def stmt(self, s, infunc, nofault):
        if isinstance(s, (ast.FunctionDef,)):
            s.body = self.block(s.body, True, False)
            return s
        if isinstance(s, ast.ClassDef):
            s.body = self.block(s.body, False, False)
            return s
        if isinstance(s, ast.TryFinally):
            s.body = self.block(s.body, infunc, nofault)
            s.finalbody = self.block(s.finalbody, infunc, True)
            return s
        if isinstance(s, ast.TryExcept):
            s.body = self.block(s.body, infunc, nofault)
            for h in list(s.handlers):
                h.body = self.block(h.body, infunc, nofault)
            if s.orelse:
                s.orelse = self.block(s.orelse, infunc, nofault)
            return s
        if infunc and isinstance(s, (ast.Assign, ast.AugAssign)):
            v = s.value
            if not isinstance(v, (ast.Num, ast.Str, ast.Name, ast.Lambda)):
                pid = point_id(self.fname, s.lineno, '=')
                s.value = _call(VALUE, [ast.Num(n=pid), v], v)
            elif isinstance(s, ast.AugAssign):
                pid = point_id(self.fname, s.lineno, '=')
                s.value = _call(VALUE, [ast.Num(n=pid), v], v)
            return s
        for f in ('body', 'orelse'):
            b = getattr(s, f, None)
            if b is not None and len(list(b)):
                setattr(s, f, self.block(b, infunc, nofault))
        return s


def instrumented_code(path, shown):
    st = os.stat(path)
    key = (st.st_mtime, st.st_size)
    hit = _code_cache.get(path)
    if hit is not None and hit[0] == key:
        return hit[1]
    f = open(path, 'rb')
    try:
        src = f.read().replace('\r\n', '\n')
    finally:
        f.close()
    tree = ast.parse(src, path)
    ins = _Instrument(shown)
    tree.body = ins.block(tree.body, False, False)
    code = compile(tree, path, 'exec')
    _code_cache[path] = (key, code)
    return code


class Importer(object):
    """sys.meta_path finder and loader for one package."""

    def __init__(self, package, root, names):
        self.package = package
        self.root = root
        self.names = names        # builtins injected in each module
        self.on_load = None       # called before each module is read

    def _locate(self, fullname):
        rel = os.path.join(self.root, *fullname.split('.'))
        init = os.path.join(rel, '__init__.py')
        if os.path.isfile(init):
            return init, True
        if os.path.isfile(rel + '.py'):
            return rel + '.py', False
        return None, False

    def find_module(self, fullname, path=None):
        if fullname != self.package and \
                not fullname.startswith(self.package + '.'):
            return None
        if self._locate(fullname)[0] is None:
            return None
        return self

    def load_module(self, fullname):
        path, ispkg = self._locate(fullname)
        if self.on_load is not None:
            self.on_load(fullname)
        code = instrumented_code(path, os.path.relpath(path, self.root))
        mod = sys.modules.get(fullname)
        fresh = mod is None
        if fresh:
            mod = imp.new_module(fullname)
            sys.modules[fullname] = mod
        mod.__file__ = path
        mod.__loader__ = self
        mod.__dict__.update(self.names)
        if ispkg:
            mod.__path__ = [os.path.dirname(path)]
            mod.__package__ = fullname
        else:
            mod.__package__ = fullname.rpartition('.')[0]
        try:
            exec code in mod.__dict__
        except BaseException:
            if fresh:
                sys.modules.pop(fullname, None)
            raise
        return sys.modules[fullname]
