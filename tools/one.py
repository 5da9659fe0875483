#!/usr/bin/env python3
"""Run one chunk alone, showing its output.  usage: one.py PROP CHUNK [SEED] [--brief] [--dump SECS]"""
import json, os, subprocess, sys, tempfile, time, importlib.machinery, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = importlib.machinery.SourceFileLoader('check', os.path.join(HERE, 'check'))
spec = importlib.util.spec_from_loader('check', l)
check = importlib.util.module_from_spec(spec); l.exec_module(check)
prop, chunk = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3].isdigit() else 1
dump = float(sys.argv[sys.argv.index('--dump') + 1]) if '--dump' in sys.argv else None
d = tempfile.mkdtemp()
job = {'mode': 'run', 'prop': prop, 'seed': seed, 'chunks': [chunk],
       'out': d + '/o', 'hb': d + '/hb', 'digests': False}
p = check.spawn(job, d, 'x')
t = time.time()
while p.poll() is None:
    time.sleep(0.2)
    if dump and time.time() - t > dump:
        print(open(d + '/hb').read())
        subprocess.run(['jstack', str(p.pid)])
        check.kill(p)
        break
print(check.tail(d, 'x', 20000))
if os.path.exists(d + '/o'):
    r = json.load(open(d + '/o'))
    v = r['viol']
    if '--brief' in sys.argv:
        print(v and '%s run %s: %s\n  ... %s' % (
            v['cls'], v['n'], v['msg'][:300], v['msg'][300:][-900:]))
    else:
        print(json.dumps(v, indent=1)[:6000])
    print('runs', r['stats']['runs'], 'steps', r['stats']['steps'], r['stats']['fired'])
