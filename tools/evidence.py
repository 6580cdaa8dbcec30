#!/usr/bin/env python3
"""Merge the parts of one run (release and debug build of the crate) into evidence/<id>.json."""
import json, os, sys, time
pid, rc, start = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
parts = [json.load(open(f'target/part-{pid}-{v}.json')) for v in ('release', 'debug')]
def s(k): return sum(p[k] for p in parts)
cov = {
    'states': s('states'), 'transitions': s('transitions'),
    'traces_validated_against_impl': s('validated'),
    'samples': parts[0]['samples'],
    'exhaustive': True,
    'per_build': [{'build': p['variant'], 'states': p['states'], 'transitions': p['transitions'],
                   'validated': p['validated'], 'wall_s': p['wall'], 'spaces': p['spaces'], 'outcomes': p['outcomes']} for p in parts],
    'distinct_outcomes': len(set().union(*[p['outcomes'] for p in parts])),
    'known_findings_reproduced': sorted(set().union(*[p['known'] for p in parts])),
}
ev = {'property': pid, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1')),
      'level': 'model_checking', 'coverage': cov,
      'assumptions': sorted(set(sum([p['assumptions'] for p in parts], []))),
      'wall_s': round(time.time() - start, 2), 'violations': s('violations')}
if ev['tier'] not in ('quick', 'thorough'): ev['tier'] = 'quick'
os.makedirs('evidence', exist_ok=True)
json.dump(ev, open(f'evidence/{pid}.json', 'w'), indent=1)
