# -*- coding: utf-8 -*-
"""Loading copies ("worlds") of the package under test from /repo."""
import os
import sys

import core
import instr

REPO = os.environ.get('SIM_REPO', '/repo')

_importer = None


def setup():
    global _importer
    sys.dont_write_bytecode = True
    core.install()
    sys.path[:] = [p for p in sys.path
                   if os.path.abspath(p or '.') != os.path.abspath(REPO)]
    _importer = instr.Importer('flatland', REPO, core.NAMES)
    sys.meta_path.insert(0, _importer)


def purge():
    for k in list(sys.modules):
        if k == 'flatland' or k.startswith('flatland.'):
            del sys.modules[k]
    try:
        import blinker.base
        blinker.base.signal.__self__.clear()
    except (ImportError, AttributeError):
        pass


class World(object):
    """One fully imported copy of the package."""

    def __init__(self):
        purge()
        import flatland
        import flatland.schema
        import flatland.validation
        import flatland.util
        import flatland.signals
        import flatland.exc
        import flatland.out.generic
        import flatland.out.markup
        import flatland.out.util
        flatland = sys.modules['flatland']
        self.fl = flatland
        for name in list(flatland.__all__):
            getattr(flatland, name)
        self.schema = flatland.schema
        self.v = flatland.validation
        self.util = flatland.util
        self.signals = flatland.signals
        self.exc = flatland.exc
        self.generic = sys.modules['flatland.out.generic']
        self.markup = sys.modules['flatland.out.markup']
        self.modules = dict((k, v) for k, v in sys.modules.items()
                            if k == 'flatland' or k.startswith('flatland.'))

    def want_genshi(self):
        self.activate()
        import flatland.out.genshi
        self.genshi = sys.modules['flatland.out.genshi']
        self.modules['flatland.out.genshi'] = self.genshi

    def activate(self):
        for k in list(sys.modules):
            if k == 'flatland' or k.startswith('flatland.'):
                del sys.modules[k]
        sys.modules.update(self.modules)


_worlds = {}


def get(name='main'):
    w = _worlds.get(name)
    if w is None:
        w = _worlds[name] = World()
        if name != 'main' and 'main' in _worlds:
            _worlds['main'].activate()
    return w


def reset():
    """Forget every loaded copy: the next get() imports afresh."""
    _worlds.clear()
    purge()
