"""Adds the findings and the fixed defects to known_findings.json (run by hand when one is added; never by a check)."""
import json
import subprocess
import sys
from pathlib import Path

P = Path(__file__).parents[1] / 'known_findings.json'


def log():
    out = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
    return [line.split(' ', 1) for line in out.splitlines() if ' fix: ' in line]


def main():
    """findings.py ID PROPERTY WHAT adds a finding; findings.py fixed PROPERTY [N] assigns PROPERTY to the (first N)
    fix commits that are not listed yet"""
    d = json.loads(P.read_text())
    d.setdefault('fixed', [])
    if sys.argv[1] == 'fixed':
        new = [(h, s) for h, s in log() if not any(f' {h} ' in f for f in d['fixed'])]
        for h, subject in new[:int(sys.argv[3])] if len(sys.argv) > 3 else new:
            d['fixed'].append(f'fixed: property={sys.argv[2]} {h} {subject[5:]}')
            print(d['fixed'][-1])
    else:
        d['findings'].append(dict(id=sys.argv[1], property=sys.argv[2], what=sys.argv[3]))
    P.write_text(json.dumps(d, indent=1) + '\n')


main()
