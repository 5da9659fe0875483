#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the registered workloads."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
built = set()
for n in os.listdir(os.path.join(HERE, 'sim')):
    if n.startswith('p_') and n.endswith('.py'):
        built |= set(re.findall(r"^    ID = '(\w+)'", open(
            os.path.join(HERE, 'sim', n), encoding='utf-8').read(), re.M))
PURE = ('a pure function of its arguments: no task, clock, I/O, callback or '
        'shared state takes part, so there is no schedule and no fault for '
        'a simulator to choose; ')
WHY = {
    'N05': PURE + 'the helpers keep nothing between calls.',
}
NOTE = {
    'default': 'Seeded search, not a proof: a sample of schedules, histories '
    'and fault positions, decided against %s. Preemption points are the '
    'statements of flatland (plus its callbacks and locks) on the Jython 2.7 '
    'that ships here, so orderings inside one statement or inside the '
    'standard library are not explored. Trusts the simulator in sim/core.py '
    'and the model in sim/.',
}
ORACLE = {
    'S01': 'the same script run alone in a fresh copy of the package',
    'S02': 'configuration snapshots of every class before and after',
    'S03': 'counts of the initialisation hook and the declared fields',
    'S04': 'an independent path evaluator over the tree',
    'S05': 'object identity by name',
    'S06': 'the objects exported by the defining modules',
    'S07': 'a reference overlay of plain dictionaries',
    'S08': 'answers of a single reader and full snapshots of the tree',
    'F01': 'the original tree and a simulated disk and network',
    'F02': 'an independent model of flat keys',
    'F03': 'an independent model of flat keys, and counted work',
    'T01': 'Python lists in the reference model',
    'T02': 'restricted dictionaries in the reference model',
    'T03': 'a reference model of scalars and a new twin element',
    'T04': 'the before/blank/supplied values per leaf and a retry on a new '
           'element',
    'T05': 'the target looked up afresh',
    'T06': 'the composition of the current children',
    'T07': 'a walk of the tree from the root',
    'T08': 'plain attribute dictionaries',
    'T09': 'an independent reader and printer of each text format',
    'V01': 'an independent model of the two validation passes',
    'V02': 'the fault-free validation of an equal tree',
    'V03': 'the recorded sequence of validator runs',
    'V04': 'messages recomputed from the recorded arguments',
    'V05': 'verdicts recomputed from the current tree',
    'V06': 'independent restatements of each validator',
    'V07': 'independent restatements of each validator over the standard '
           'library\'s URL splitting and IDNA codec',
    'V08': 'digit-wise restatements of each validator',
    'M01': 'a reference stack of settings',
    'M02': 'a parser of the output and a model of the transforms',
    'M03': 'the same render alone',
    'D01': 'a reference model of defaults',
}
m = {'version': 1,
     'setup_cmd': 'python3 -m py_compile check && command -v java jython '
                  '>/dev/null && mkdir -p evidence replays',
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in built:
        m['checks'].append({
            'property': i,
            'quick_cmd': './check %s' % i,
            'thorough_cmd': './check %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: '
                         'seeded search over schedules, histories and faults',
            'level': 'exploration',
            'level_note': NOTE['default'] % ORACLE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': WHY.get(
            i, 'not claimed: no workload for it has been built yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
