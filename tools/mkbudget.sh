#!/bin/bash
# Writes sim/budget.json from the property classes (run after editing them).
cd "$(dirname "$0")/../sim" || exit 1
JYTHONPATH=/opt/jylib jython -B - <<'P'
import sys, json
sys.path.insert(0, '.')
import core, world
world.setup()
import props
out = {'common': {'quick_limit': 240, 'thorough_limit': 3600,
                  'assumptions': [
    'preemption happens only in front of statements of flatland, between the '
    'evaluation and the store of an assignment, at locks, imports and '
    'callbacks; not inside the Jython runtime or third-party packages',
    'Jython 2.7.3 with Python threads on Java threads; seeded sampling, not '
    'exhaustive']}, 'properties': {}}
for k, p in sorted(props.REGISTRY.items()):
    out['properties'][k] = {'quick': p.QUICK, 'thorough': p.THOROUGH,
                            'chunk': p.CHUNK, 'rule': p.RULE,
                            'real': p.REAL, 'stub': p.STUB or 'none'}
f = open('budget.json', 'w')
f.write(json.dumps(out, indent=1, sort_keys=True).replace(' \n', '\n') + '\n')
f.close()
P
