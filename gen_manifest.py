#!/usr/bin/env python3
"""Writes MANIFEST.json from plans.py."""
import json, plans
checks = []
for p in sorted(plans.PROPS):
    d = plans.PROPS[p]
    checks.append({'property': p, 'quick_cmd': '/verif/check.sh %s' % p, 'thorough_cmd': '/verif/check.sh %s --tier thorough' % p,
                   'technique': 'deterministic simulation with fault injection: seeded search over schedules, crash points and faults (profiles: %s), judged against a reference model' % ', '.join(x[0] for x in d['profiles']),
                   'level': d['level'], 'level_note': d['rule']})
m = {'version': 1, 'setup_cmd': '/verif/setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(plans.NOT_APPLICABLE.items())]}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
