#!/opt/venv/bin/python
"""replay.py FILE: re-runs a counterexample on the unmodified code of /repo (no instrumentation, no solver).

Prints what fails and exits 1 if the property is violated, exits 0 if it is not.
"""
import importlib
import json
import os
import resource
import shutil
import sys
import tempfile
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
VERIF = Path(__file__).resolve().parent
REPO = os.environ.get('SX_REPO', '/repo')
for p in (f'{REPO}/repositories/download-torch-pkm-repo/src', f'{REPO}/repositories/conda-pkm-repo/src',
          f'{REPO}/pkm-cli/src', f'{REPO}/pkm/src', str(VERIF)):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
sys.path.insert(0, f'{REPO}/pkm/src') if sys.path[0] != f'{REPO}/pkm/src' else None


def run_one(case, inputs, known):
    from sx.session import ConcreteSession, Stop
    s = ConcreteSession(inputs, known)
    res = {'error': None, 'stopped': None, 'tb': None}
    try:
        case.fn(s, **case.params)
    except Stop as x:
        res['stopped'] = str(x)
    except Exception as x:
        frames = traceback.extract_tb(x.__traceback__)
        tb = ''.join(traceback.format_exception(x))[-3000:]
        last = frames[-1].filename
        if isinstance(x, (ImportError, AttributeError, NameError)) and last.startswith(str(VERIF)):
            res['error'] = 'harness error: ' + tb
        else:
            s.failures.append({'label': 'exception:' + type(x).__name__, 'info': str(x)[:300]})
            res['tb'] = tb
    finally:
        s.finish()
    res.update(failures=s.failures, known_hits=s.known_hits, trace=s.traces, reached=sorted(s.reached),
               missing=s.missing)
    return res


def main():
    sys.setrecursionlimit(8000)
    if sys.argv[1] == '--batch':
        job = json.loads(Path(sys.argv[2]).read_text())
        mod = importlib.import_module('props.' + job['property'].lower())
        cases = {c.name: c for c in mod.cases(job['tier'])}
        with open(sys.argv[3], 'w') as out:
            if any(c.sandbox for c in cases.values()) and os.getuid() == 0:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            for it in job['items']:
                r = run_one(cases[it['case']], it['inputs'], job['known'])
                out.write(json.dumps(r) + '\n')
                out.flush()
        return 0
    job = json.loads(Path(sys.argv[1]).read_text())
    d = tempfile.mkdtemp(prefix='sxr_')
    os.chmod(d, 0o777)
    try:
        os.environ.update(SX_SCRATCH=d, XDG_DATA_HOME=d + '/xdg', HOME=d + '/home', PYTHONDONTWRITEBYTECODE='1')
        mod = importlib.import_module('props.' + job['property'].lower())
        case = {c.name: c for c in mod.cases(job['tier'])}[job['case']]
        r = run_one(case, job['inputs'], ())
        print(json.dumps(r, indent=1))
        return 1 if r['failures'] else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
