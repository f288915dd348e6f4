#!/usr/bin/env python3
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
from spec import P  # noqa

LEVEL_NOTE = ('Every path of the real code within the stated bounds is explored symbolically and each assertion decided by '
              'z3 for all values on it; assumes the symbolic models of str/int/re in sx/ (validated on every run by replaying '
              'sampled paths on the unmodified code) and whatever the evidence lists under assumptions.')
TECH = 'symbolic execution of the real Python code with SMT (z3); counterexamples replayed'

assert len({p['id'] for p in P}) == len(P)
with open(VERIF / 'properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        for fl in p['files']:
            assert (Path('/repo') / fl).exists(), (p['id'], fl)
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                        **({'observe_at': p['observe']} if p['observe'] else {})}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"',
       'checks': [{'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]} --tier quick',
                   'thorough_cmd': f'python3-vt check.py {p["id"]} --tier thorough', 'technique': p.get('tech') or TECH,
                   'level': 'model_checking', 'level_note': p['note'] or LEVEL_NOTE} for p in P if not p['na']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
       'notes': 'No hooks in /repo: the engine (sx/) instruments the current source at import time. See DESIGN.md.'}
(VERIF / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')

head = (HERE / 'design_head.md').read_text()
tail = (HERE / 'design_tail.md').read_text()
parts = []
for p in P:
    parts.append(f'### {p["id"]}: {p["title"]}\n\n' + (f'Not applicable: {p["na"]}' if p['na'] else p['how']) + '\n')
(VERIF / 'DESIGN.md').write_text(head + '\n## How each property is decided\n\n' + '\n'.join(parts) + '\n' + tail)
