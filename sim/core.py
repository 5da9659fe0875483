# -*- coding: utf-8 -*-
"""The simulator: one process, real threads, one of them running at a time.

A Sim owns every task of one simulated run.  Tasks are Java threads parked on
semaphores; exactly one is released at any instant and it hands over only at a
simulator point (before each statement of the package under test, at lock
operations, at callbacks into the harness, and between operations).  Which
task goes next, and which fault is raised where, comes from the plan and from
a PRNG seeded by the plan, and every decision is recorded, so the same plan
gives the same execution, and a recorded schedule can be replayed and shrunk.
"""
import hashlib
import math
import random
import sys
import traceback

from java.lang import Runnable, Thread
from java.util.concurrent import Semaphore

import jarray
from java.lang.management import ManagementFactory

import instr

JThread = Thread

INF = 1 << 60


class SimAbort(BaseException):
    """Unwinds a task when the run is over."""


class SimFault(Exception):
    """An injected failure of a callback (an ordinary exception)."""


class SimKill(BaseException):
    """An injected asynchronous interruption (like KeyboardInterrupt)."""


class SimMemory(MemoryError):
    """An injected failing allocation."""


FAULTS = {'fault': SimFault, 'kill': SimKill, 'memory': SimMemory}
INJECTED = (SimFault, SimKill, SimMemory)


def mkrng(*parts):
    h = hashlib.md5('|'.join([str(p) for p in parts])).hexdigest()
    return random.Random(int(h[:15], 16))


class Task(object):

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.sem = Semaphore(0)
        self.n = 0              # points passed
        self.stop = INF         # next point at which something may happen
        self.next_sw = INF
        self.fault_at = INF
        self.fault_kind = None
        self.fault_fired = None
        self.cb_n = 0
        self.cb_at = None       # (nth callback of this operation, kind)
        self.done = False
        self.blocked = None
        self.exc = None
        self.pinned = 0
        self.opname = ''


class _Runner(Runnable):

    def __init__(self, sim, task):
        self.sim = sim
        self.task = task

    def run(self):
        self.sim._thread_main(self.task)


_mx = ManagementFactory.getThreadMXBean()
_Current = JThread.currentThread


def _monitors():
    """Does this thread hold a Java monitor?"""
    i = _mx.getThreadInfo(jarray.array([_Current().getId()], 'l'),
                          True, False)[0]
    return len(i.getLockedMonitors()) > 0


class Sim(object):

    active = None

    def __init__(self, sched, seed, cap=400000):
        self.sched = sched
        self.mode = sched.get('mode', 'seq')
        self.rng = mkrng('sched', seed, sched.get('salt', 0))
        self.tasks = []
        self.cur = None
        self.main = Semaphore(0)
        self.cap = cap
        self.steps = 0
        self.aborting = False
        self.viol = None
        self.decisions = []       # [task, step, kind, target]
        self.log = []
        self.fired = {}           # fault kind -> count
        self.probes = {}
        self.switches = 0
        self.preempts = 0         # switches inside library code
        self.sw_sites = []
        self.vtime = 0.0
        self.sites = ()
        self.site_p = 0.0
        self.explicit = {}
        if self.mode == 'explicit':
            for t, n, k, to in sched['d']:
                self.explicit[(t, n, k)] = to
            self.exp_steps = {}
            for t, n, k, to in sched['d']:
                if k == 'p':
                    self.exp_steps.setdefault(t, []).append(n)
            for v in self.exp_steps.values():
                v.sort()
        elif self.mode == 'site':
            self.site_p = sched.get('p', 0.5)
            self.site_salt = sched.get('salt', 0)
            self.site_mod = sched.get('mod', 40)
            self._site_memo = {}

    # -- recording ---------------------------------------------------------

    def ev(self, *what):
        c = self.cur
        self.log.append((c.idx if c is not None else -1,) + what)

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def digest(self):
        h = hashlib.md5()
        for e in self.log:
            h.update(repr(e))
            h.update('\n')
        h.update(repr(self.decisions))
        return h.hexdigest()

    def fail(self, cls, msg):
        """Report a violation and end the run."""
        if self.viol is None:
            self.viol = (cls, msg)
        if self.cur is not None:
            self.aborting = True
        raise SimAbort()

    # -- points ------------------------------------------------------------

    def _arm(self, t):
        if self.mode == 'explicit':
            q = self.exp_steps.get(t.idx)
            while q and q[0] <= t.n:
                q.pop(0)
            t.next_sw = q[0] if q else INF
        elif self.mode == 'rand':
            p = self.sched['p']
            k = 1
            r = self.rng.random()
            # geometric, without a loop of draws
            k = 1 + int(math.log(max(r, 1e-12)) / math.log(1.0 - p))
            t.next_sw = t.n + k
        elif self.mode == 'burst':
            if self.burst_left > 0:
                self.burst_left -= 1
                hi = self.sched.get('hi', 3000)
                t.next_sw = t.n + 1 + int(math.exp(
                    self.rng.random() * math.log(hi)))
            else:
                t.next_sw = INF
        else:
            t.next_sw = INF
        self._limit(t)

    def _limit(self, t):
        t.stop = min(t.next_sw, t.fault_at, t.cap_at)

    def hit(self, t, pid, canfault):
        """The slow half of a point: something is due at this step."""
        if self.aborting:
            if canfault:
                raise SimAbort()
            return
        if t.n >= t.cap_at:
            used = sum([x.n for x in self.tasks])
            if used >= self.cap:
                self.aborting = True
                if self.viol is None:
                    self.viol = ('livelock', 'no end after %d steps; task %d '
                                 'in %s at %s' % (used, t.idx, t.opname,
                                                  site(pid)))
                raise SimAbort()
            t.cap_at = t.n + max(1, (self.cap - used))
            self._limit(t)
        if t.n >= t.next_sw:
            self._preempt(t, pid)
        if canfault and t.n >= t.fault_at:
            kind = t.fault_kind
            t.fault_at = INF
            self._limit(t)
            t.fault_fired = kind
            self.fired['async-' + kind] = self.fired.get('async-' + kind, 0) + 1
            self.ev('fault', kind, t.opname, site(pid))
            raise FAULTS[kind]('injected at %s' % site(pid))

    def _others(self, t):
        return [x for x in self.tasks
                if x is not t and not x.done and x.blocked is None]

    def _preempt(self, t, pid):
        if self.mode == 'explicit':
            to = self.explicit.get((t.idx, t.n, 'p'))
            q = self.exp_steps.get(t.idx)
            while q and q[0] <= t.n:
                q.pop(0)
            t.next_sw = q[0] if q else INF
            self._limit(t)
            if to is None or to >= len(self.tasks):
                return
            x = self.tasks[to]
            if x is t or x.done or x.blocked is not None:
                return
        else:
            self._arm(t)
            o = self._others(t)
            if not o:
                return
            x = o[self.rng.randrange(len(o))] if len(o) > 1 else o[0]
        if t.pinned or _monitors():
            # Jython runs some callbacks (list comparisons, sort keys) with
            # the Java monitor of the list held.  CPython has no such lock,
            # and parking here would stop whoever touches that list next.
            self.probe('kept-going-under-a-list-monitor')
            if self.mode != 'explicit':
                t.next_sw = min(t.next_sw, t.n + 25)
                self._limit(t)
            return
        self._switch(t, x, 'p', pid)

    def _switch(self, t, x, kind, pid):
        self.decisions.append([t.idx, t.n, kind, x.idx])
        self.switches += 1
        if pid is not None and kind == 'p' and pid >= 0:
            self.preempts += 1
            self.sw_sites.append((t.idx, site(pid), x.idx))
        else:
            self.sw_sites.append((t.idx, kind, x.idx))
        self.cur = x
        x.sem.release()
        if not t.done:
            t.sem.acquireUninterruptibly()
            if self.aborting:
                raise SimAbort()

    def op_point(self):
        """Between two operations of a task."""
        t = self.cur
        if t is None or self.aborting:
            return
        t.n += 1
        if self.mode == 'explicit':
            if t.n >= t.next_sw:
                self._preempt(t, -1)
            return
        if self.mode == 'op' and self.rng.random() < self.sched.get('p', 0.5):
            o = self._others(t)
            if o:
                x = o[self.rng.randrange(len(o))]
                self._switch(t, x, 'p', -1)
        elif t.n >= t.stop:
            self.hit(t, -1, False)

    def cb(self, name='cb'):
        """A callback from the package into the harness: a place to switch
        and a place to fail."""
        t = self.cur
        if t is None:
            return
        pt(CB_PID)
        t.cb_n += 1
        if t.cb_at is not None and t.cb_n >= t.cb_at[0] and \
                (t.cb_at[2] is None or t.cb_at[2] == name):
            kind = t.cb_at[1]
            t.cb_at = None
            t.fault_fired = kind
            t.fault_site = name
            k = 'callback-%s-%s' % (name, kind)
            self.fired[k] = self.fired.get(k, 0) + 1
            self.ev('cbfault', kind, name, t.cb_n)
            raise FAULTS[kind]('injected in callback %s' % name)

    # -- operations --------------------------------------------------------

    def op(self, name, fault, fn, *args):
        """Run one operation of the current task, with its fault if any.

        fault: None, ['pt', nth, kind] or ['cb', nth, kind(, site)].
        Returns ('ok', value), ('exc', exception) or ('fault', kind): the
        last one whenever an injected exception came out.
        """
        t = self.cur
        if t is None:
            try:
                return ('ok', fn(*args))
            except SimAbort:
                raise
            except INJECTED, e:
                return ('fault', type(e).__name__)
            except Exception, e:
                return ('exc', e)
        self.op_point()
        t.opname = name
        t.fault_fired = None
        t.cb_n = 0
        t.cb_at = None
        if fault:
            if fault[0] == 'pt':
                t.fault_at = t.n + fault[1]
                t.fault_kind = fault[2]
            else:
                t.cb_at = (fault[1], fault[2],
                           fault[3] if len(fault) > 3 else None)
        self._limit(t)
        try:
            try:
                r = ('ok', fn(*args))
            finally:
                t.fault_at = INF
                t.cb_at = None
                self._limit(t)
        except SimAbort:
            raise
        except INJECTED, e:
            r = ('fault', type(e).__name__)
        except Exception, e:
            r = ('exc', e)
        if self.aborting:
            raise SimAbort()
        self.ev('op', name, r[0], t.fault_fired)
        return r

    @property
    def fault_hit(self):
        """The fault that fired in the current task's operation, or None."""
        return self.cur.fault_fired if self.cur is not None else None

    # -- running -----------------------------------------------------------

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        t.cap_at = self.cap
        self.tasks.append(t)
        return t

    def run(self):
        """Run all spawned tasks to completion.  May be called repeatedly:
        each call runs the tasks spawned since."""
        todo = [t for t in self.tasks if not t.done]
        if not todo:
            return
        if self.mode == 'burst' and not hasattr(self, 'burst_left'):
            self.burst_left = self.sched.get('k', 2)
        for t in todo:
            t.thread = Thread(None, _Runner(self, t), 'task%d' % t.idx,
                              64 << 20)
            t.thread.setDaemon(True)
            t.thread.start()
            self._arm(t)
        Sim.active = self
        first = todo[0]
        if self.mode == 'explicit':
            to = self.explicit.get((-1, len(self.tasks), 's'))
            for t in todo:
                if t.idx == to:
                    first = t
        elif self.mode != 'seq' and len(todo) > 1:
            first = todo[self.rng.randrange(len(todo))]
        if first is not todo[0]:
            self.decisions.append([-1, len(self.tasks), 's', first.idx])
        self.cur = first
        first.sem.release()
        self.main.acquireUninterruptibly()
        self.cur = None
        if self.aborting:
            # unwind whatever is still parked
            for t in self.tasks:
                while not t.done:
                    self.cur = t
                    t.sem.release()
                    self.main.acquireUninterruptibly()
                    self.cur = None
        self.steps = sum([t.n for t in self.tasks])
        for t in todo:
            t.thread.join()
        Sim.active = None
        if self.viol is not None:
            raise SimAbort()
        for t in todo:
            if t.exc is not None:
                raise HarnessError(t.exc)

    def _thread_main(self, t):
        t.sem.acquireUninterruptibly()
        try:
            if not self.aborting:
                t.fn()
        except SimAbort:
            pass
        except BaseException:
            t.exc = traceback.format_exc()
            self.aborting = True
        except:
            # a Java throwable (StackOverflowError, OutOfMemoryError)
            t.exc = 'java: %r' % (sys.exc_info(),)
            self.aborting = True
        t.done = True
        if self.aborting:
            self.main.release()
            return
        self._next(t, 'e')

    def _next(self, t, kind):
        """Task *t* ended or blocked: pick who goes on."""
        o = self._others(t)
        if not o:
            alive = [x for x in self.tasks if not x.done]
            if alive:
                self.aborting = True
                if self.viol is None:
                    self.viol = ('deadlock', 'every task waits: %s' % (
                        ['task %d in %s' % (x.idx, x.opname) for x in alive],))
                if t.done:
                    self.main.release()
                    return
                raise SimAbort()
            self.main.release()
            return
        x = o[0]
        if self.mode == 'explicit':
            to = self.explicit.get((t.idx, t.n, kind))
            for y in o:
                if y.idx == to:
                    x = y
        elif self.mode != 'seq' and len(o) > 1:
            x = o[self.rng.randrange(len(o))]
        if x is not o[0] or kind == 'b':
            self._switch(t, x, kind, None)
        else:
            # the default choice: nothing to record
            self.switches += 1
            self.cur = x
            x.sem.release()

    def block(self, t, lock):
        t.blocked = lock
        self.probe('blocked-on-lock')
        o = self._others(t)
        if not o:
            self._next(t, 'b')
            return
        x = o[0]
        if self.mode == 'explicit':
            to = self.explicit.get((t.idx, t.n, 'b'))
            for y in o:
                if y.idx == to:
                    x = y
        elif len(o) > 1:
            x = o[self.rng.randrange(len(o))]
        self._switch(t, x, 'b', None)

    def unblock(self, lock):
        for x in self.tasks:
            if x.blocked is lock:
                x.blocked = None


class HarnessError(Exception):
    pass


CB_PID = instr.point_id('callback', 0, '')
LOCK_PID = instr.point_id('lock', 0, '')


def site(pid):
    return instr.point_names[pid] if pid >= 0 else 'between-ops'


_seen = set()


class _Hook(object):
    __slots__ = ()


def pt(pid):
    s = Sim.active
    if s is None:
        return
    t = s.cur
    if t is None:
        return
    t.n += 1
    _seen.add(pid)
    if t.n >= t.stop or s.aborting:
        s.hit(t, pid, True)
    elif s.site_p:
        _site(s, t, pid)


def nf(pid):
    s = Sim.active
    if s is None:
        return
    t = s.cur
    if t is None:
        return
    t.n += 1
    _seen.add(pid)
    if t.n >= t.stop:
        s.hit(t, pid, False)
    elif s.site_p:
        _site(s, t, pid)


def val(pid, value):
    pt(pid)
    return value


def _site(s, t, pid):
    m = s._site_memo.get(pid)
    if m is None:
        h = hashlib.md5('%s|%s' % (s.site_salt, site(pid))).hexdigest()
        m = s._site_memo[pid] = int(h[:8], 16) % s.site_mod == 0
    if m and s.rng.random() < s.site_p:
        o = s._others(t)
        if o and not t.pinned and not _monitors():
            x = o[s.rng.randrange(len(o))] if len(o) > 1 else o[0]
            s._switch(t, x, 'p', pid)


NAMES = {instr.POINT: pt, instr.NOFAULT: nf, instr.VALUE: val}


# -- locks -------------------------------------------------------------------

class SimLock(object):
    """threading.Lock / RLock under the simulator's control."""

    reentrant = False

    def __init__(self, *a, **kw):
        self._owner = None
        self._count = 0

    def _me(self):
        s = Sim.active
        if s is None or s.cur is None:
            return s, 'main'
        return s, s.cur

    def acquire(self, blocking=1, timeout=-1):
        s, me = self._me()
        if me != 'main':
            nf(LOCK_PID)
        while self._owner is not None and \
                not (self.reentrant and self._owner is me):
            if not blocking:
                return False
            if me == 'main':
                raise LockLeak('lock is still held by %r after the run' % (
                    getattr(self._owner, 'idx', self._owner),))
            if self._owner is me:
                s.aborting = True
                if s.viol is None:
                    s.viol = ('deadlock',
                              'task %d takes a lock it already holds' % me.idx)
                raise SimAbort()
            s.block(me, self)
        self._owner = me
        self._count += 1
        return True

    __enter__ = acquire

    def release(self):
        s, me = self._me()
        if self._owner is None:
            raise RuntimeError('release of an unlocked lock')
        self._count -= 1
        if self._count <= 0:
            self._count = 0
            self._owner = None
            if s is not None:
                s.unblock(self)
        if me != 'main' and not s.aborting:
            nf(LOCK_PID)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None


class SimRLock(SimLock):
    reentrant = True


class LockLeak(Exception):
    pass


_import_lock = SimRLock()


class _Call(object):

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


def install():
    """Put the simulator behind locks, imports, clocks and sleeps."""
    import __builtin__
    import threading
    import thread
    import time
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    thread.allocate_lock = SimLock
    real_import = __builtin__.__import__

    def __import__(*a, **kw):
        s = Sim.active
        if s is None or s.cur is None or s.aborting:
            return real_import(*a, **kw)
        # only imports of, or from, the package under test are points
        g = a[1] if len(a) > 1 else None
        if not a[0].startswith('flatland') and not (
                g and (g.get('__name__') or '').startswith('flatland')):
            # Java's import lock is held in there: no switching
            t = s.cur
            t.pinned += 1
            try:
                return real_import(*a, **kw)
            finally:
                t.pinned -= 1
        _import_lock.acquire()
        try:
            return real_import(*a, **kw)
        finally:
            _import_lock.release()
    __builtin__.__import__ = __import__

    def now():
        s = Sim.active
        return 1000000000.0 + (s.vtime if s is not None else 0.0)

    def sleep(secs):
        s = Sim.active
        if s is not None and s.cur is not None:
            s.vtime += secs
            nf(LOCK_PID)
    # Jython's time module is a Java class: a plain function set on it would
    # come back as an unbound method
    time.real_time = time.time
    time.time = time.clock = _Call(now)
    time.sleep = _Call(sleep)
