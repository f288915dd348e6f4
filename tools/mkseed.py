"""mk(id, property, edits=[(file, old, new)], demo=python source, needs, breaks): writes /verif/seeded/<id>/"""
import json
import shutil
import subprocess
import tempfile
from pathlib import Path

SEEDED = Path(__import__('os').environ.get('MK_SEEDED', '/verif/seeded'))


def mk(id, property, edits, demo, needs, breaks):
    d = SEEDED / id
    d.mkdir(parents=True, exist_ok=True)
    w = Path(tempfile.mkdtemp(prefix='mkseed'))
    try:
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {w}', shell=True, check=True)
        subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True,
                       cwd=w, check=True)
        for f, old, new in edits:
            p = w / f
            t = p.read_text()
            assert t.count(old) == 1, (id, f, t.count(old), old)
            p.write_text(t.replace(old, new))
            # only original lines may change
            bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], capture_output=True,
                                text=True).stdout.splitlines()
            base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True,
                                  text=True).stdout.strip()
            start = t[:t.index(old)].count('\n')
            import difflib
            for op in difflib.SequenceMatcher(None, old.split('\n'), new.split('\n')).get_opcodes():
                if op[0] != 'equal':
                    for i in range(op[1], op[2]):
                        line = bl[start + i]
                        if not line.lstrip('^').startswith(base[:38]):
                            print(f'WARNING {id}: touches a line of a fix: {line}')
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
        (d / 'patch.diff').write_text(diff)
    finally:
        shutil.rmtree(w)
    (d / 'demo.sh').write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / 'demo.py').write_text(demo.lstrip('\n'))
    (d / 'meta.json').write_text(json.dumps({'property': property, 'needs': needs, 'what_it_breaks': breaks}, indent=1)
                                 + '\n')
