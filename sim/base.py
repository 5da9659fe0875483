# -*- coding: utf-8 -*-
"""What every property workload shares."""
import gen
import model
from core import mkrng, INJECTED, SimAbort

REGISTRY = {}


def register(cls):
    REGISTRY[cls.ID] = cls()
    return cls


class Prop(object):
    """A property: a plan generator, a driver and an oracle."""

    ID = None
    FRESH = 'chunk'       # a fresh copy of the package per 'chunk' or 'run'
    CHUNK = 25            # runs that share one copy of the package
    QUICK = 96            # chunks of the quick tier
    THOROUGH = 2400
    RULE = ''
    REAL = 'all of flatland, loaded from /repo'
    STUB = ''
    CAP = 400000

    def gen(self, rng):
        raise NotImplementedError

    def setup(self, plan, sim, W):
        raise NotImplementedError

    def do(self, ctx, i, op):
        raise NotImplementedError

    def finish(self, ctx):
        pass

    def run(self, plan, sim, W):
        ctx = self.setup(plan, sim, W)
        for i, ops in enumerate(plan['tasks']):
            sim.spawn(self._body(ctx, i, ops))
        sim.run()
        self.finish(ctx)

    def _body(self, ctx, i, ops):
        def body():
            self.task_start(ctx, i)
            for op in ops:
                self.do(ctx, i, op)
            self.task_end(ctx, i)
        return body

    def task_start(self, ctx, i):
        pass

    def task_end(self, ctx, i):
        pass

    def nontrivial(self, plan, sim):
        """Did this run exercise what the property is about?"""
        return sim.preempts > 0 or bool(sim.fired)


class Ctx(object):

    def __init__(self, plan, sim, W):
        self.plan = plan
        self.sim = sim
        self.W = W


def ntasks(rng, one=0.35, hi=3):
    if rng.random() < one:
        return 1
    return 2 + rng.randrange(hi - 1)


def exc_name(r):
    """A result of Sim.op in a comparable form (no messages)."""
    if r[0] == 'exc':
        return type(r[1]).__name__
    return r[0]
