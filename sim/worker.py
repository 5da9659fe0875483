# -*- coding: utf-8 -*-
"""Jython side: runs, shrinks and replays plans.

usage: worker.py JOB.json

JOB: {"mode": "run"|"shrink"|"replay"|"digest", "prop": id, "seed": n,
      "chunks": [..], "out": path, "hb": path, ...}
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core
import world


def roundtrip(x):
    return json.loads(json.dumps(x, default=repr))


def load(prop):
    world.setup()
    import props
    return props.REGISTRY[prop]


def plan_for(P, seed, n):
    rng = core.mkrng(P.ID, seed, n)
    plan = P.gen(rng)
    plan['seed'] = '%s/%s/%s' % (P.ID, seed, n)
    plan.setdefault('sched', {'mode': 'seq'})
    return roundtrip(plan)


def run_one(P, plan):
    """One simulated execution.  Returns the Sim, with .viol set or not."""
    if P.FRESH == 'run':
        world.reset()
    W = world.get()
    W.activate()
    sim = core.Sim(plan['sched'], plan['seed'], plan.get('cap', P.CAP))
    try:
        P.run(plan, sim, W)
    except core.SimAbort:
        pass
    except core.LockLeak, e:
        sim.viol = ('lock-leak', str(e))
    except core.HarnessError, e:
        if sim.viol is None:
            sim.viol = crash(str(e))
    except Exception:
        if sim.viol is None:
            sim.viol = crash(traceback.format_exc())
    core.Sim.active = None
    core._import_lock._owner = None
    core._import_lock._count = 0
    return sim


def crash(tb):
    last = [l for l in tb.strip().split('\n') if l.strip()][-1]
    if tb.startswith('java:'):
        if 'StackOverflow' in tb:
            return ('crash', tb)
        raise RuntimeError(tb)
    if 'IOError' in last.split(':')[0] or 'SimHarness' in last:
        raise RuntimeError(tb)
    return ('crash', tb[-3000:])


def explicit(plan, sim):
    p = dict(plan)
    p['sched'] = {'mode': 'explicit', 'd': roundtrip(sim.decisions)}
    return p


class Stats(object):

    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.switches = 0
        self.preempts = 0
        self.vtime = 0.0
        self.fired = {}
        self.probes = {}
        self.modes = {}
        self.inter = set()
        self.plans = set()
        self.pairs = set()
        self.samples = []
        self.multi = 0

    def add(self, P, plan, sim):
        self.runs += 1
        self.steps += sim.steps
        self.switches += sim.switches
        self.preempts += sim.preempts
        self.vtime += sim.vtime
        for d, s in ((self.fired, sim.fired), (self.probes, sim.probes)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v
        m = plan['sched'].get('mode')
        self.modes[m] = self.modes.get(m, 0) + 1
        if len(plan.get('tasks', ())) > 1:
            self.multi += 1
        h = core.hashlib.md5(repr(sim.sw_sites)).hexdigest()[:12]
        if sim.sw_sites:
            self.inter.add(h)
        prev = None
        for s in sim.sw_sites:
            if prev is not None:
                self.pairs.add('%s>%s' % (prev[1], s[1]))
            prev = s
        if P.nontrivial(plan, sim):
            q = dict(plan)
            q.pop('seed', None)
            self.plans.add(core.hashlib.md5(
                json.dumps(q, sort_keys=True) + h).hexdigest()[:12])
            if len(self.samples) < 2:
                self.samples.append({
                    'plan': plan, 'steps': sim.steps,
                    'switches': [list(x) for x in sim.sw_sites[:12]],
                    'events': len(sim.log), 'faults': sim.fired})

    def dump(self):
        d = dict(self.__dict__)
        for k in ('inter', 'plans', 'pairs'):
            d[k] = sorted(d[k])
        d['sites'] = sorted(core.instr.point_names[p] for p in core._seen
                            if p >= 0)
        d['points'] = len(core.instr.point_names)
        return d


def write(path, obj):
    f = open(path + '.tmp', 'wb')
    f.write(json.dumps(obj, default=repr))
    f.close()
    os.rename(path + '.tmp', path)


def do_run(job):
    P = load(job['prop'])
    st = Stats()
    out = {'viol': None, 'chunks': []}
    hb = open(job['hb'], 'wb')
    digests = {}
    limit = core.sys.modules['time'].real_time() + job.get('limit', 1e9)
    now = core.sys.modules['time'].real_time
    for c in job['chunks']:
        if now() > limit:
            break
        world.reset()
        prefix = []
        for j in range(P.CHUNK):
            n = c * P.CHUNK + j
            hb.seek(0)
            hb.write('%d %d          ' % (c, n))
            hb.flush()
            plan = plan_for(P, job['seed'], n)
            sim = run_one(P, plan)
            st.add(P, plan, sim)
            if job.get('digests'):
                digests[str(n)] = [sim.digest(), sim.steps,
                                   sim.viol and sim.viol[0]]
            if sim.viol is not None and not job.get('digests'):
                out['viol'] = {'cls': sim.viol[0], 'msg': sim.viol[1],
                               'prefix': prefix, 'n': n,
                               'orig': plan, 'plan': explicit(plan, sim)}
                break
            prefix.append(plan)
        if out['viol']:
            break
        out['chunks'].append(c)
    out['stats'] = st.dump()
    if job.get('digests'):
        out['digests'] = digests
    write(job['out'], out)


def attempt(P, prefix, plan):
    """The violation of *plan* after *prefix*, from a fresh start."""
    world.reset()
    for p in prefix:
        s = run_one(P, p)
        if s.viol is not None:
            return None
    s = run_one(P, plan)
    return s


def do_plan(job):
    P = load(job['prop'])
    first = job['chunk'] * P.CHUNK
    write(job['out'], {
        'plan': plan_for(P, job['seed'], job['run']),
        'prefix': [plan_for(P, job['seed'], n)
                   for n in range(first, job['run'])]})


def do_replay(job):
    P = load(job['prop'])
    f = open(job['replay'])
    r = json.loads(f.read())
    f.close()
    s = attempt(P, r.get('prefix', []), r['plan'])
    res = {'viol': None, 'digest': None}
    if s is not None:
        res = {'viol': s.viol, 'digest': s.digest(),
               'trace': [list(e) for e in s.log][-60:],
               'switches': [list(x) for x in s.sw_sites]}
    write(job['out'], roundtrip(res))


def do_plans(job):
    """Run given plans (a regression corpus), each from a fresh start."""
    P = load(job['prop'])
    st = Stats()
    out = {'viol': None, 'chunks': []}
    for name, r in job['plans']:
        world.reset()
        for p in r.get('prefix', []) + [r['plan']]:
            s = run_one(P, p)
            st.add(P, p, s)
            if s.viol is not None:
                out['viol'] = {'cls': s.viol[0], 'msg': s.viol[1], 'n': name,
                               'prefix': r.get('prefix', []),
                               'orig': r['plan'], 'plan': r['plan']}
                break
        if out['viol']:
            break
    out['stats'] = st.dump()
    write(job['out'], out)


class Shrinker(object):

    def __init__(self, P, job):
        self.P = P
        v = job['viol']
        self.cls = v['cls']
        self.prefix = v['prefix']
        self.plan = v['plan']
        self.orig = v['orig']
        self.now = sys.modules['time'].real_time
        self.end = self.now() + job.get('limit', 60)
        self.msg = v['msg']
        self.tries = 0

    def bad(self, prefix, plan):
        if self.now() > self.end:
            return False
        self.tries += 1
        try:
            s = attempt(self.P, prefix, roundtrip(plan))
        except core.SimAbort:
            raise
        except Exception:
            return False
        if s is None or s.viol is None or s.viol[0] != self.cls:
            return False
        self.msg = s.viol[1]
        self.last = s
        return True

    def take(self, prefix, plan):
        if self.bad(prefix, plan):
            self.prefix, self.plan = prefix, plan
            return True
        return False

    def ddmin(self, items, test):
        """Remove chunks of *items* while test(rest) holds."""
        n = 2
        while items and self.now() < self.end:
            size = max(1, (len(items) + n - 1) // n)
            done = False
            i = 0
            while i < len(items):
                rest = items[:i] + items[i + size:]
                if test(rest):
                    items = rest
                    done = True
                else:
                    i += size
            if not done:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    def with_tasks(self, tasks):
        p = dict(self.plan)
        p['tasks'] = tasks
        return p

    def run(self):
        if not self.bad(self.prefix, self.plan):
            if not self.bad(self.prefix, self.orig):
                return False
            self.plan = explicit(self.orig, self.last)
            if not self.bad(self.prefix, self.plan):
                self.plan = self.orig
                return True
        if self.prefix:
            if not self.take([], self.plan):
                self.ddmin(self.prefix,
                           lambda r: self.take(r, self.plan))
        for rnd in range(3):
            size = len(json.dumps(self.plan)) + len(self.prefix)
            self.schedule()
            self.tasks()
            self.ops()
            self.faults()
            self.schedule()
            if len(json.dumps(self.plan)) + len(self.prefix) >= size:
                break
            if self.now() > self.end:
                break
        return True

    def schedule(self):
        d = self.plan['sched'].get('d')
        if d is None:
            return
        if d and self.take(self.prefix, dict(
                self.plan, sched={'mode': 'explicit', 'd': []})):
            return
        self.ddmin(d, lambda r: self.take(self.prefix, dict(
            self.plan, sched={'mode': 'explicit', 'd': r})))

    def tasks(self):
        """Drop the whole script of a task (the task stays, empty)."""
        ts = self.plan.get('tasks', [])
        for i in range(len(ts)):
            if ts[i]:
                ts2 = list(self.plan['tasks'])
                ts2[i] = []
                self.take(self.prefix, self.with_tasks(ts2))

    def ops(self):
        for i in range(len(self.plan.get('tasks', []))):
            def test(rest, i=i):
                ts = list(self.plan['tasks'])
                ts[i] = rest
                return self.retry(self.with_tasks(ts))
            self.ddmin(self.plan['tasks'][i], test)

    def retry(self, plan):
        """Removing an operation shifts step numbers: try the plan as it is,
        then a handful of fresh random schedules."""
        if self.take(self.prefix, plan):
            return True
        if len([t for t in plan['tasks'] if t]) < 2 or \
                not self.plan['sched'].get('d'):
            return False
        for salt in range(6):
            q = dict(plan, sched=[
                {'mode': 'rand', 'p': 0.2, 'salt': salt},
                {'mode': 'rand', 'p': 0.05, 'salt': salt},
                {'mode': 'burst', 'k': 2, 'hi': 300, 'salt': salt},
                {'mode': 'burst', 'k': 3, 'hi': 1000, 'salt': salt},
                {'mode': 'rand', 'p': 0.5, 'salt': salt},
                {'mode': 'site', 'p': 1.0, 'mod': 10, 'salt': salt},
            ][salt])
            if self.bad(self.prefix, q):
                e = explicit(q, self.last)
                if self.bad(self.prefix, e):
                    self.plan = e
                    return True
        return False

    def faults(self):
        for i, ops in enumerate(self.plan.get('tasks', [])):
            for j, op in enumerate(ops):
                if isinstance(op, dict) and op.get('f'):
                    o = dict(op)
                    o.pop('f')
                    ts = [list(t) for t in self.plan['tasks']]
                    ts[i][j] = o
                    self.take(self.prefix, self.with_tasks(ts))


def do_shrink(job):
    P = load(job['prop'])
    s = Shrinker(P, job)
    ok = s.run()
    trace, sw = [], []
    a = attempt(P, s.prefix, roundtrip(s.plan)) if ok else None
    if a is not None:
        trace = [list(e) for e in a.log][-80:]
        sw = [list(x) for x in a.sw_sites]
    write(job['out'], roundtrip({
        'ok': ok, 'prefix': s.prefix, 'plan': s.plan, 'cls': s.cls,
        'msg': s.msg, 'tries': s.tries, 'trace': trace, 'switches': sw}))


def main():
    f = open(sys.argv[1])
    job = json.loads(f.read())
    f.close()
    {'run': do_run, 'shrink': do_shrink, 'replay': do_replay,
     'plans': do_plans, 'plan': do_plan}[job['mode']](job)


if __name__ == '__main__':
    main()
