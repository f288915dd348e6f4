"""F02: installing a wheel puts exactly its files in place and records them, or changes nothing."""
import compileall
import os
import tempfile
import traceback
import warnings
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions import wheel_distribution
from pkm.api.distributions.wheel_distribution import WheelDistribution

from props._fs import Fault, Faults, put, snap
from props._wheel import DATA, DIST, INFO, NAME, descriptor, digest, place, pyc_of, record_of, target_in, wheel_files, write_wheel
from sx.session import Case
import csv

PROPERTY = 'F02'
ASSUMPTIONS = ['what fails is an operation on files; undoing does not itself run into failures']

PARTS = {
    'module': {'mod.py': 'X = 1\n'},
    'package': {'pkg/__init__.py': '', 'pkg/sub/a.py': 'Y = 2\n', 'pkg/sub/data.txt': 'some, "data"\n'},
    'odd': {'pkg/broken.py': 'print 1\n', 'pkg/a,b.txt': 'comma'},
    'scripts': {f'{DATA}/scripts/tool': '#!python\nprint(1)\n', f'{DATA}/scripts/in/shell': '#!/bin/sh\n', f'{DATA}/scripts/gui': '#!pythonw\n1\n',
                'bin/tool': 'of the same name'},
    'data': {f'{DATA}/data/share/my/x.txt': 'shared', 'share/my/x.txt': 'of the same name'},
    'headers': {f'{DATA}/headers/my.h': 'int x;'},
    'lib': {f'{DATA}/purelib/pure.py': 'P = 1\n', f'{DATA}/platlib/plat.so': b'\x7fELF'},
}
POINTS = '[console_scripts]\nmy-tool = mod:main\nOther.Tool = pkg.sub.a:main [x]\n\n[gui_scripts]\nmygui = mod:gui.run\n\n[plugins]\nz = mod\n'
SCRIPTS = {'my-tool': ('mod', 'main'), 'Other.Tool': ('pkg.sub.a', 'main'), 'mygui': ('mod', 'gui.run')}
THERE = {'lib/site/pkg/theirs.py': 'T = 1\n', 'lib/site/pkg/sub/data.txt': 'old data', 'bin/tool': 'old tool', 'bin/my-tool': 'old',
         'share/my/y.txt': 'y', 'lib/site/Other-1.dist-info/METADATA': 'Name: Other\n'}


def silent(S, root):
    tmp = root / 'tmp'
    tmp.mkdir()
    S.patch(tempfile, 'tempdir', str(tmp))
    S.patch(traceback, 'print_exc', lambda *a, **k: None)
    S.patch(warnings, 'warn', lambda *a, **k: None)
    return tmp


def installed(S, root, files, purelib, points, before, requested, request):
    """checks the tree after an installation that succeeded"""
    after = snap(root)
    want, info = place(files, purelib, scripts=SCRIPTS if points else ())
    inf = lambda: sorted(k for k in after if k not in before)
    made = {f'{info}/RECORD', f'{info}/INSTALLER', f'{info}/INSTALLATION_MODE'} | ({f'{info}/REQUESTED'} if requested else set())
    pycs = {pyc_of(root, k) for k in want if k.endswith('.py')}
    for k, v in want.items():
        S.check(k in after, 'a file of the wheel is not installed', info=lambda: [k, inf()])
        S.check(v is None or after[k] == v, 'an installed file does not have its content', info=lambda: [k, after[k]])
    new = {k for k, v in after.items() if v is not None and before.get(k, 0) != v}
    S.check(new <= set(want) | made | pycs, 'something is installed that is not in the wheel',
            info=lambda: sorted(new - set(want) - made - pycs))
    S.check(all(after.get(k) == v for k, v in before.items() if k not in want and k not in pycs),
            'a file that is not of the wheel is changed', info=inf)
    S.check(made <= set(after), 'the installation is not recorded', info=inf)
    S.check(after[f'{info}/INSTALLER'].strip() == b'pkm', 'the installer is not recorded')
    S.check((f'{info}/REQUESTED' in after) == requested, 'whether the user requested it is not recorded')
    if requested:
        S.check(Dependency.parse(after[f'{info}/REQUESTED'].decode()) == request, 'the request of the user is recorded wrongly')
    # RECORD: every installed file with its hash and size
    rows = list(csv.reader(after[f'{info}/RECORD'].decode().splitlines()))
    listed = {}
    for row in rows:
        S.check(len(row) == 3, 'a record does not have three fields', info=lambda: row)
        rel = os.path.relpath(os.path.normpath(os.path.join(root, os.path.dirname(info), row[0])), root)
        S.check(rel not in listed, 'a file is recorded twice', info=lambda: rel)
        listed[rel] = row
    S.check(set(listed) - made == (set(want) | (pycs & set(after))) - made, 'the record does not list what is installed',
            info=lambda: ['missing', sorted(set(want) - set(listed)), 'too much', sorted(set(listed) - set(want))])
    for rel, row in listed.items():
        if rel in after and row[1]:
            algorithm, _, value = row[1].partition('=')
            S.check(value == digest(after[rel], algorithm), 'a recorded hash is wrong', info=lambda: [rel, row])
            S.check(int(row[2]) == len(after[rel]), 'a recorded size is wrong', info=lambda: [rel, row])
        S.check(bool(row[1]) or rel in made, 'a file is recorded without hash', info=lambda: row)
    for k in want:
        if k.startswith('bin/'):
            S.check(os.access(root / k, os.X_OK), 'a script cannot be executed', info=lambda: k)
    if points:
        for name, (mod, attr) in SCRIPTS.items():
            text = after[f'bin/{name}'].decode()
            first, rest = text.split('\n', 1)
            called = []
            import sys
            import types
            mods = {}
            for i in range(len(mod.split('.'))):
                mods['.'.join(mod.split('.')[:i + 1])] = types.ModuleType('m')
            for m in list(mods):
                if '.' in m:
                    setattr(mods[m.rsplit('.', 1)[0]], m.rsplit('.', 1)[1], mods[m])
            o = mods[mod]
            for a in attr.split('.')[:-1]:
                setattr(o, a, types.SimpleNamespace())
                o = getattr(o, a)
            setattr(o, attr.split('.')[-1], lambda: called.append(name) or 7)
            saved = {m: sys.modules.get(m) for m in mods}
            sys.modules.update(mods)
            code = None
            try:
                exec(rest, {'__name__': '__main__'})
            except SystemExit as e:
                code = e.code
            finally:
                for m, old in saved.items():
                    if old is None:
                        sys.modules.pop(m, None)
                    else:
                        sys.modules[m] = old
            S.check(first == '#!/nowhere/bin/python' and called == [name] and code == 7, 'a script does not run its entry point',
                    info=lambda: text)
    if f'{DATA}/scripts/tool' in files:
        S.check(after['bin/tool'] == b'#!/nowhere/bin/python\nprint(1)\n' and after['bin/gui'].split(b'\n', 1)[1] == b'1\n' and
                after['bin/in/shell'] == b'#!/bin/sh\n', 'the scripts of a wheel are not adapted to the interpreter',
                info=lambda: [after['bin/tool'], after['bin/gui']])


def install(S, faulty, parts, there, requests=(False, True)):
    root = S.scratch() / 'env'
    root.mkdir()
    tmp = silent(S, root.parent)
    more, names = {}, []
    for p in parts:
        if S.flag(p):
            names.append(p)
            more.update(PARTS[p])
    if 'odd' in names:
        S.assume('package' in names)
    points = bool(S.flag('entry points'))
    purelib = bool(S.flag('purelib'))
    requested = S.pick('requested', list(requests))
    others = bool(S.flag('has others'))
    put(root, {k: v for k, v in THERE.items() if k in there or others})
    files = wheel_files(purelib, POINTS if points else '', more)
    wheel = root.parent / f'{DIST}-py3-none-any.whl'
    write_wheel(wheel, files, record_of(files))
    target = target_in(root)
    before = snap(root)
    request = Dependency.parse('my-pkg[x]>=1, <2') if requested else None
    faults = Faults(S, S.free_int('fails at', 0, None) if faulty else -1, bool(S.flag('half way')) if faulty else False)
    faults.install()
    faults.wrap(compileall, 'compile_file', lambda p, **k: Path(__import__('importlib.util').util.cache_from_source(str(p))).write_bytes(b'h'))
    real_open = Path.open

    def opened(self, mode='r', *a, **k):
        if ('w' in mode or 'a' in mode) and faults.hit('open'):
            if faults.half:
                with real_open(self, 'wb') as f:
                    f.write(b'ha')
            raise Fault(28, 'no space left on device')
        return real_open(self, mode, *a, **k)
    S.patch(Path, 'open', opened)
    raised = None
    try:
        WheelDistribution(descriptor(), wheel).install_to(target, request)
    except Fault as e:
        raised = e
    faults.on = False
    inf = lambda: [names, points, purelib, faults.failed, faults.n]
    S.trace(sorted(snap(root)), type(raised).__name__)
    if raised or faults.failed:
        S.reach('failed')
        after = snap(root)
        S.check(raised is not None, 'a failure is swallowed', info=inf)
        S.check(after == before, 'a failed installation leaves changes behind',
                info=lambda: [*inf(), 'too much', [k for k in after if k not in before], 'changed or missing',
                              [k for k in before if after.get(k, 0) != before[k]]])
    else:
        S.reach('installed')
        installed(S, root, files, purelib, points, before, requested, request)
    S.check(not list(tmp.iterdir()), 'temporary files are left', info=lambda: [*inf(), [p.name for p in tmp.iterdir()]])


def refused(S):
    """wheels whose files do not match their record"""
    root = S.scratch() / 'env'
    root.mkdir()
    silent(S, root.parent)
    files = wheel_files(True, POINTS, {**PARTS['package'], **PARTS['scripts']})
    victim = S.pick('file', ['pkg/sub/a.py', 'pkg/__init__.py', f'{DATA}/scripts/tool', f'{INFO}/METADATA'])
    how = S.pick('how', ['fine', 'other hash', 'other content', 'not listed', 'no hash', 'no record', 'sha512', 'md5 of other',
                         'headerless data', 'two infos', 'no info', 'newer', 'newer minor', 'unknown hash'])
    hashes, content = {}, dict(files)
    right = files[victim]
    record = None
    if how == 'other hash':
        hashes[victim] = 'sha256=' + digest(right + b'x')
    elif how == 'other content':
        content[victim] = right + b'evil'
    elif how == 'not listed':
        hashes[victim] = None
    elif how == 'no hash':
        hashes[victim] = ''
    elif how == 'sha512':
        hashes[victim] = 'sha512=' + digest(right, 'sha512')
    elif how == 'md5 of other':
        hashes[victim] = 'md5=' + digest(right + b'x', 'md5')
    elif how == 'unknown hash':
        hashes[victim] = 'nosuch=' + digest(right)
    elif how == 'headerless data':
        content[f'{DATA}/nowhere/x'] = files[f'{DATA}/nowhere/x'] = b'x'
    elif how == 'two infos':
        content['Other-1.dist-info/METADATA'] = files['Other-1.dist-info/METADATA'] = b'Name: Other\n'
    elif how in ('newer', 'newer minor'):
        v = {'newer': b'2.0', 'newer minor': b'1.9'}[how]
        content[f'{INFO}/WHEEL'] = files[f'{INFO}/WHEEL'] = files[f'{INFO}/WHEEL'].replace(b'Wheel-Version: 1.0', b'Wheel-Version: ' + v)
    record = None if how == 'no record' else record_of(files, hashes)
    if how == 'no info':
        content, record = {k: v for k, v in content.items() if not k.startswith(INFO)}, None
    wheel = root.parent / f'{DIST}-py3-none-any.whl'
    write_wheel(wheel, content, record)
    put(root, THERE)
    before = snap(root)
    S.patch(__import__('builtins'), 'print', lambda *a, **k: None)
    raised = None
    try:
        WheelDistribution(descriptor(), wheel).install_to(target_in(root))
    except Exception as e:
        raised = e
    S.trace(how, type(raised).__name__)
    after = snap(root)
    if raised:
        S.reach('refused')
        S.check(after == before, 'a refused wheel leaves files behind', info=lambda: [how, victim, repr(raised)])
    else:
        S.reach('installed')
    # (a hash that does not match inside of the dist-info is reported only)
    lenient = victim.startswith(INFO) and how in ('other hash', 'other content', 'md5 of other')
    bad = how not in ('fine', 'sha512', 'newer minor') and not lenient
    S.check(bad == (raised is not None) or lenient, 'a wheel is refused or accepted wrongly', info=lambda: [how, victim, repr(raised)])


def cases(tier):
    deep = tier == 'thorough'
    T = 2400 if deep else 400
    out = [Case('layout', install, dict(faulty=False, parts=list(PARTS), there=[], requests=(False, True) if deep else (True,)),
                'wheels of any of seven parts, with and without entry points, into an empty or used environment', reach=('installed',),
                timeout=T, sandbox=True, weight=10),
           Case('refused', refused, {}, 'any of four files altered in any of the listed ways', reach=('refused', 'installed'),
                timeout=T, sandbox=True, weight=3)]
    for name, parts in (('code', ['module', 'package']), ('data', ['scripts', 'data'])) if not deep else (
            ('code', ['module', 'package', 'odd']), ('data', ['scripts', 'data', 'headers']), ('lib', ['lib', 'module'])):
        out.append(Case(f'faults {name}', install, dict(faulty=True, parts=parts, there=list(THERE) if not deep else [], requests=(True,)),
                        f'any failing file operation while installing {parts}', reach=('failed', 'installed'), timeout=T, sandbox=True,
                        weight=10, best_effort=deep))
    return out
