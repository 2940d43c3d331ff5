#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402
NOT_APPLICABLE = {}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
m = {
    'version': 1,
    'setup_cmd': 'python3 -c "import checks"',
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 run.py %s quick' % p,
        'thorough_cmd': 'python3 run.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': CHECKS[p]['technique'],
        'level': CHECKS[p]['level'],
        'level_note': CHECKS[p]['note'],
    } for p in props if p in CHECKS],
    'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'its check is not built yet')}
                       for p in props if p not in CHECKS],
    'notes': 'No hooks in /repo are needed: everything is observed through the public interface, element types, '
             'allocators, callables and interposed libc calls of the harness. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
