"""Runs the cases of a property in parallel worker processes, replays, decides, writes the evidence."""
from __future__ import annotations

import argparse
import glob
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('SX_REPO', '/repo'))
VENV_PY = '/opt/venv/bin/python'
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
JOBS = 8
MAX_CANDIDATES = 12


def repo_paths():
    return [str(REPO / 'pkm/src'), str(REPO / 'pkm-cli/src'), str(REPO / 'repositories/conda-pkm-repo/src'),
            str(REPO / 'repositories/download-torch-pkm-repo/src')]


def base_env(scratch):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'PYTHONHOME', 'VIRTUAL_ENV')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', XDG_DATA_HOME=str(scratch / 'xdg'),
               HOME=str(scratch / 'home'), SX_SCRATCH=str(scratch), SX_REPO=str(REPO), TMPDIR=str(scratch / 'tmp'),
               LC_ALL='C.UTF-8')
    return env


class Recorder:
    def __init__(self, known_ids):
        self.candidates = []
        self.known_found = {}
        self.reached = set()
        self.samples = []
        self.known_ids = known_ids

    def candidate(self, label, inputs, tb):
        self.candidates.append({'label': label, 'inputs': inputs, 'tb': tb})

    def known(self, kid, label, inputs):
        self.known_found.setdefault(kid, {'label': label, 'inputs': inputs})

    def full(self):
        return len(self.candidates) >= MAX_CANDIDATES


def drop_privileges(scratch):
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))


def watch_functions():
    """names of the repository functions that execute"""
    mon = sys.monitoring
    seen = set()
    prefix = str(REPO) + '/'

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(prefix):
            seen.add(f'{fn[len(prefix):]}:{code.co_qualname}')
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, 'sx')
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)
    return seen


def run_case_worker(case, out_path, known_ids, tier, timeout, n_samples):
    import faulthandler
    faulthandler.register(signal.SIGUSR1)  # where a slow case spends its time
    """in a forked child: explore one case, write the outcome as json"""
    from . import core
    from .session import SymSession, plain
    from .values import concretize_with_model
    t0 = time.time()
    rec = Recorder(known_ids)
    seen = watch_functions()
    eng = core.Engine(timeout_s=timeout)
    holder = {}
    step = [1]
    paths = [0]

    def fn():
        s = holder['s'] = SymSession(eng, known_ids, rec)
        try:
            case.fn(s, **case.params)
        finally:
            s.finish()

    def on_path(kind, payload):
        if kind == 'exception':
            tb = traceback.extract_tb(payload.__traceback__)
            frames = [f for f in tb if '/sx/' not in f.filename]
            last = frames[-1] if frames else None
            inputs = eng.model_inputs()
            if inputs is not None:
                rec.candidate('exception:' + type(payload).__name__, inputs,
                              ''.join(traceback.format_exception(payload))[-3000:])
                if rec.full():
                    raise core.BudgetExceeded('candidates')
        elif kind == 'ok':
            paths[0] += 1
            if paths[0] % step[0] == 0:
                r = eng._query()
                m = eng._last_model if r else None
                if m is not None:
                    inputs = {n: concretize_with_model(v, m) for n, v in eng.inputs.items()}
                    tr = [plain(concretize_with_model(t, m)) for t in eng.trace]
                    rec.samples.append({'inputs': inputs, 'trace': tr})
                    if len(rec.samples) >= 2 * n_samples:
                        rec.samples = rec.samples[::2]
                        step[0] *= 2
        elif kind == 'unsupported':
            eng.incomplete.append('unsupported: ' + str(payload))

    err = None
    try:
        eng.explore(fn, on_path)
    except Exception:
        err = traceback.format_exc()
    out = {'name': case.name, 'stats': eng.stats.as_dict(), 'incomplete': eng.incomplete, 'error': err,
           'candidates': rec.candidates, 'known': rec.known_found, 'reached': sorted(rec.reached),
           'samples': rec.samples, 'functions': sorted(seen), 'wall': time.time() - t0}
    with open(out_path, 'w') as f:
        json.dump(out, f)


class Pool:
    def __init__(self, jobs, scratch):
        self.jobs = jobs
        self.scratch = scratch

    def run(self, tasks):
        """tasks: list of (key, timeout_s, callable run in the child)"""
        pending = list(tasks)
        running = {}
        failed = {}
        while pending or running:
            while pending and len(running) < self.jobs:
                key, timeout, fn = pending.pop(0)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.setpgid(0, 0)
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        fn()
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (key, time.time() + timeout)
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (key, dl) in list(running.items()):
                    if now > dl:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except ProcessLookupError:
                            os.kill(p, signal.SIGKILL)
                        failed[key] = 'hard timeout'
                time.sleep(0.02)
                continue
            if pid in running:
                key, _ = running.pop(pid)
                if status != 0:
                    failed.setdefault(key, f'worker status {status}')
        return failed


def replay_batch(prop, items, scratch, known_ids, tier, jobs=JOBS):
    """items: [{'case','inputs'}]; runs them on the unmodified code in fresh interpreters"""
    if not items:
        return []
    shards = [items[i::jobs] for i in range(jobs) if items[i::jobs]]
    procs = []
    for i, sh in enumerate(shards):
        d = Path(tempfile.mkdtemp(prefix='replay_', dir=scratch))
        (d / 'in.json').write_text(json.dumps({'property': prop, 'tier': tier, 'items': sh,
                                               'known': sorted(known_ids)}))
        env = base_env(scratch)
        env['SX_SCRATCH'] = str(d)
        os.chmod(d, 0o777)
        p = subprocess.Popen([VENV_PY, '-u', str(VERIF / 'replay.py'), '--batch', str(d / 'in.json'),
                              str(d / 'out.json')], env=env, stdout=open(d / 'log', 'w'), stderr=subprocess.STDOUT,
                             cwd=str(d))
        procs.append((p, d, sh))
    out = [None] * len(items)
    for i, (p, d, sh) in enumerate(procs):
        try:
            p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
        res = []
        if (d / 'out.json').exists():
            res = [json.loads(l) for l in (d / 'out.json').read_text().splitlines()]
        log = (d / 'log').read_text()[-3000:]
        for j in range(len(sh)):
            out[i + j * len(shards)] = res[j] if j < len(res) else {'error': 'replay process died: ' + log}
    return out


def load_known(prop):
    p = VERIF / 'known_findings.json'
    if not p.exists():
        return {}
    return {e['id']: e for e in json.loads(p.read_text())['findings'] if e['property'] == prop}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if os.environ.get('PYTHONHASHSEED') != '0':
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        os.execve(sys.executable, [sys.executable, str(VERIF / 'check.py')] + (argv or sys.argv[1:]), env)
    scratch = Path(tempfile.mkdtemp(prefix='sx_'))
    os.chmod(scratch, 0o777)
    for d in ('xdg', 'home', 'tmp'):
        (scratch / d).mkdir()
        os.chmod(scratch / d, 0o777)
    try:
        return _main(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, scratch):
    t0 = time.time()
    prop, tier = a.property, a.tier
    os.environ.update(base_env(scratch))
    tempfile.tempdir = None
    sys.path[:0] = [str(VERIF)] + repo_paths()
    sys.path.append(VENV_SITE)
    from . import instrument
    instrument.install()
    sys.setrecursionlimit(8000)
    try:
        mod = importlib.import_module('props.' + prop.lower())
        cases = mod.cases(tier)
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={prop} the harness cannot be loaded against the current tree')
        return 2
    if a.case:
        cases = [c for c in cases if c.name.startswith(a.case)]
    if a.list:
        for c in cases:
            print(c.name, '|', c.bounds)
        return 0
    known = load_known(prop)
    known_ids = frozenset(known)
    n_samples = max(4, (240 if tier == 'quick' else 1200) // max(1, len(cases)))

    tasks = []
    outdir = scratch / 'out'
    outdir.mkdir()
    os.chmod(outdir, 0o777)
    for i, c in sorted(enumerate(cases), key=lambda ic: -ic[1].weight):
        def run(c=c, i=i):
            if c.sandbox:
                drop_privileges(scratch)
            run_case_worker(c, outdir / f'{i}.json', known_ids, tier, c.timeout, n_samples)

        tasks.append((i, c.timeout * 1.3 + 30, run))
    failed = Pool(JOBS, scratch).run(tasks)
    results = {}
    for i, c in enumerate(cases):
        p = outdir / f'{i}.json'
        if i not in failed and p.exists():
            results[i] = json.loads(p.read_text())
        else:
            results[i] = None

    errors, notes = [], []
    items = []
    for i, c in enumerate(cases):
        r = results[i]
        if r is None:
            (notes if c.best_effort else errors).append(f'{c.name}: {failed.get(i, "no outcome")}')
            continue
        if r['error']:
            errors.append(f'{c.name}: {r["error"]}')
        for cand in r['candidates']:
            items.append((i, 'cand', cand))
        for kid, k in r['known'].items():
            items.append((i, 'known', dict(k, kid=kid)))
        for s in r['samples'][:n_samples * 2]:
            items.append((i, 'sample', s))
    rep = replay_batch(prop, [{'case': cases[i].name, 'inputs': x['inputs']} for i, _, x in items], scratch,
                       known_ids, tier)
    violations, known_hits = [], {}
    validated = 0
    spurious = {}
    for (i, kind, x), r in zip(items, rep):
        c = cases[i]
        if r.get('error'):
            errors.append(f'{c.name}: replay: {r["error"]}')
            continue
        if r['failures']:
            # whatever the solver expected here, the real code fails on this input
            violations.append((c, x, r))
            continue
        for kid in r['known_hits']:
            known_hits.setdefault(kid, (c, x, r))
        if kind == 'cand':
            spurious.setdefault(i, []).append((x, r))
        elif kind == 'sample':
            validated += 1
            if x['trace'] != r['trace'] or r['stopped'] or r.get('missing'):
                errors.append(f'{c.name}: the encoding disagrees with the code on {json.dumps(x["inputs"])}: '
                              f'{x["trace"]} / {r["trace"]} {r["stopped"]}')
    for i, sp in spurious.items():
        errors.append(f'{cases[i].name}: {len(sp)} counterexample(s) of the encoding do not reproduce on the real '
                      f'code, e.g. {sp[0][0]["label"]} {json.dumps(sp[0][0]["inputs"])}\n{(sp[0][0]["tb"] or "")[-700:]}')
    for i, c in enumerate(cases):
        r = results[i]
        if r is None:
            continue
        inc = [x for x in r['incomplete'] if x != 'candidates']
        if inc:
            (notes if c.best_effort else errors).append(f'{c.name}: incomplete: {inc}')
        elif not r['candidates']:
            missing = set(c.reach) - set(r['reached'])
            if missing:
                errors.append(f'{c.name}: vacuous, never reached: {sorted(missing)}')

    st = {}
    for r in results.values():
        if r:
            for k, v in r['stats'].items():
                st[k] = st.get(k, 0) + v
    functions = sorted(set().union(*[set(r['functions']) for r in results.values() if r] or [set()]))
    samples = []
    for i, r in results.items():
        if r and r['samples']:
            samples.append({'case': cases[i].name, 'inputs': r['samples'][0]['inputs']})
    evdir = VERIF / 'evidence'
    evdir.mkdir(exist_ok=True)
    replays = []
    if violations:
        rd = evdir / 'replays'
        rd.mkdir(exist_ok=True)
        seen = set()
        for c, x, r in violations:
            key = (c.name, r['failures'][0]['label'])
            if key in seen:
                continue
            seen.add(key)
            p = rd / f'{prop}-{len(replays) + 1}.json'
            p.write_text(json.dumps({'property': prop, 'tier': tier, 'case': c.name, 'inputs': x['inputs'],
                                     'failure': r['failures'], 'tb': r.get('tb')}, indent=1))
            replays.append((p, c, x, r))
    wall = time.time() - t0
    paths = st.get('paths', 0) + st.get('stopped', 0)
    evidence = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': paths, 'transitions': st.get('branches', 0),
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'cases': [{'name': c.name, 'bounds': c.bounds,
                       **({'paths': results[i]['stats']['paths'], 'wall_s': round(results[i]['wall'], 2),
                           'complete': not results[i]['incomplete']} if results[i] else {'complete': False})}
                      for i, c in enumerate(cases)],
            'assertions_decided': st.get('checks', 0), 'violation_queries': st.get('check_queries', 0),
            'solver_queries': st.get('queries', 0),
            'branches_settled_by_finite_domains': st.get('dom_decided', 0),
            'solver_s': round(st.get('solver_s', 0), 3), 'solver_unknown': st.get('unknown', 0),
            'functions_encoded': functions, 'exhaustive': not errors and not notes,
            'states_meaning': 'paths of the real code explored symbolically, each standing for all the inputs of its '
                              'path condition; transitions are the branch decisions taken by the solver',
            'known_findings_seen': sorted(known_hits), 'not_completed': notes,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(replays),
    }
    if not a.case:
        (evdir / f'{prop}.json').write_text(json.dumps(evidence, indent=1))
    if a.v:
        for i, c in enumerate(cases):
            r = results[i]
            if r:
                print(f'  {c.name}: {r["stats"]["paths"]} paths, {r["stats"]["queries"]} queries, '
                      f'{r["stats"]["solver_s"]:.1f}/{r["wall"]:.1f}s, checks {r["stats"]["checks"]}, '
                      f'reached {r["reached"]} {r["incomplete"]}')
    for kid, (c, x, r) in sorted(known_hits.items()):
        print(f'KNOWN-FINDING: property={prop} {kid} {known[kid]["what"]}')
    for n in notes:
        print(f'note: {n}')
    print(f'{prop}: {len(cases)} cases, {paths} paths, {st.get("branches", 0)} branches, {st.get("checks", 0)} '
          f'assertions, {st.get("queries", 0)} solver queries ({st.get("solver_s", 0):.1f}s), {validated} paths replayed'
          f' on the real code, {len(functions)} functions, {wall:.1f}s')
    if replays:
        for p, c, x, r in replays:
            print(f'  {c.name}: {r["failures"][0]["label"]} inputs={json.dumps(x["inputs"])} '
                  f'info={json.dumps(r["failures"][0]["info"])}')
        for e in errors:
            print('note:', e)
        for p, c, x, r in replays:
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    if errors:
        for e in errors[:20]:
            print('ERROR', e)
        print(f'ERROR property={prop}: no verdict')
        return 2
    return 0
