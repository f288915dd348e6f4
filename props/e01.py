"""E01: entry points are read as their specification says, and scripts call what they refer to."""
import configparser
import io
import os
import sys
import zipfile
from pathlib import Path

from pkm.api.distributions.distinfo import EntrypointsConfiguration, RecordsFileConfiguration, Record
from pkm.api.distributions.pth_link import PthLink
from pkm.api.environments.environment import OperatingPlatform
from pkm.api.versions.version import StandardVersion
from pkm.launchers.executables import Executables
from pkm.utils.entrypoints import EntryPoint, ObjectReference
from pkm.utils.hashes import HashSignature

from props._fs import put
from sx.session import Case

PROPERTY = 'E01'
ASSUMPTIONS = ['an executable of windows is the launcher of its kind, followed by the interpreter and a zip archive',
               'the readers of ini, csv and zip files of the standard library say what the files mean']

BLANK = ' '


def strip(s):
    while len(s) and s[0] == BLANK:
        s = s[1:]
    while len(s) and s[len(s) - 1] == BLANK:
        s = s[:len(s) - 1]
    return s


def meant(s):
    """(module, object, extras) or None: module [':' object] ['[' extra {',' extra} ']'], names are words separated by dots"""
    extras, s = None, strip(s)
    if len(s) and s[len(s) - 1] == ']':
        i = 0
        while i < len(s) and s[i] != '[':
            i += 1
        if i == len(s):
            return None
        inner, s = s[i + 1:len(s) - 1], strip(s[:i])
        extras, start = [], 0
        for j in range(len(inner) + 1):
            if j == len(inner) or inner[j] == ',':
                extras.append(strip(inner[start:j]))
                start = j + 1
        if any(not word(e) for e in extras):
            return None
    i = 0
    while i < len(s) and s[i] != ':':
        i += 1
    module = strip(s[:i])
    obj = strip(s[i + 1:]) if i < len(s) else None
    if not dotted(module) or obj is not None and not dotted(obj):
        return None
    return module, obj, extras


def word(s):
    if not len(s):
        return False
    for c in s:
        if not (c == 'a' or c == 'b'):
            return False
    return True


def dotted(s):
    start = 0
    for j in range(len(s) + 1):
        if j == len(s) or s[j] == '.':
            if not word(s[start:j]):
                return False
            start = j + 1
    return True


def references(S, prefix, n, alphabet, suffix):
    text = prefix + S.str('text', alphabet, 0, n) + suffix
    want = meant(text)
    if want is None:
        return S.reach('not a reference')
    got = ObjectReference.parse(text)
    extras = got.extras or []
    S.check(S.all([got.module_path == want[0], (got.object_path is None) == (want[1] is None), got.object_path is None or got.object_path == want[1]]),
            'a reference names its module and object', info=lambda: (text, str(got), want))
    S.check(len(extras) == len(want[2] or []) and S.all([a == b for a, b in zip(extras, want[2] or [])]), 'a reference names its extras', info=lambda: (text, str(got), want))
    back = ObjectReference.parse(str(got))
    S.check(S.all([back.module_path == got.module_path, (back.object_path or '') == (got.object_path or ''), len(back.extras or []) == len(extras)]),
            'a reference is written as it is read', info=lambda: (text, str(got)))
    S.reach('reference')


class Ini(configparser.RawConfigParser):
    optionxform = staticmethod(str)


NAMES = ['cmd', 'My-cmd.x', 'a:b', '100%', 'é', 'x y', 'é;#', 'default']
REFS = [('m', None, None), ('a.b', 'c', None), ('a.b', 'c.d', ['x', 'y']), ('m', None, ['x'])]


def files(S, groups):
    """the file of entry points, written and read"""
    eps, seen = [], set()
    for g in range(groups):
        group = S.pick(f'group{g}', ['console_scripts', 'gui_scripts', 'my.group-x'])
        name = S.pick(f'name{g}', NAMES)
        S.assume((group, name) not in seen)
        seen.add((group, name))
        eps.append((group, name, S.pick(f'reference{g}', REFS)))
    path = S.scratch() / 'entry_points.txt'
    c = EntrypointsConfiguration.load(path)
    c.entrypoints = [EntryPoint(g, n, ObjectReference(*r)) for g, n, r in eps]
    c.save()
    text = path.read_text(encoding='utf-8')
    ini = Ini(delimiters=('=',))
    ini.read_string(text)
    flat = sorted((g, n, ini[g][n].replace(' ', '')) for g in ini.sections() for n in ini[g])
    want = sorted((g, n, m + (f':{o}' if o else '') + (f'[{",".join(e)}]' if e else '')) for g, n, (m, o, e) in eps)
    S.check(flat == want, 'the file has the entry points', info=lambda: (text, want))
    back = sorted((e.group, e.name, e.ref.module_path, e.ref.object_path or '', tuple(e.ref.extras or ())) for e in EntrypointsConfiguration.load(path).entrypoints)
    S.check(back == sorted((g, n, m, o or '', tuple(e or ())) for g, n, (m, o, e) in eps), 'what is read is what has been written', info=lambda: (text, back))
    S.reach('written')


FORMS = ['[console_scripts]\ncmd = a.b:c\n', '[console_scripts]\ncmd=a.b:c\n', '# c\n\n[console_scripts]\n  cmd =   a.b : c  \n; c\n', '[x]\n[console_scripts]\r\ncmd\t=\ta.b:c\r\n',
         '[console_scripts]\ncmd = a.b:c [x,\n y]\n', '[console_scripts]\ncmd = a.b:c [ x , y ]\n\n[other]\ncmd = o\n100% = p:q\nk:v = r\n']


def foreign(S):
    """files that others have written"""
    form = S.pick('form', FORMS)
    path = S.scratch() / 'entry_points.txt'
    path.write_text(form)
    got = [e for e in EntrypointsConfiguration.load(path).entrypoints if e.group == 'console_scripts']
    S.check(len(got) == 1 and (got[0].name, got[0].ref.module_path, got[0].ref.object_path) == ('cmd', 'a.b', 'c') and got[0].is_script(), 'the entry point is read',
            info=lambda: (form, got))
    S.check(list(got[0].ref.extras or []) == (['x', 'y'] if '[x,' in form or '[ x' in form else []), 'its extras are read', info=lambda: (form, got))
    others = {e.name: str(e.ref) for e in EntrypointsConfiguration.load(path).entrypoints if e.group == 'other'}
    S.check(others == ({'cmd': 'o', '100%': 'p:q', 'k:v': 'r'} if 'other' in form else {}), 'the other groups are read', info=lambda: (form, others))
    S.reach('read')


MODULE = '''
calls = []
def f():
    calls.append('f')
    return {code!r}
class c:
    @staticmethod
    def g():
        calls.append('c.g')
        return {code!r}
main = f
'''


class Exit(Exception):
    pass


def run(source, name):
    """executes a script; what it exits with"""
    class FakeSys:
        @staticmethod
        def exit(code):
            raise Exit(code)
    real = __import__

    def imp(n, *a, **k):
        return FakeSys if n == 'sys' else real(n, *a, **k)
    import builtins
    scope = {'__name__': name, '__builtins__': {**vars(builtins), '__import__': imp}}
    try:
        exec(compile(source, 'script', 'exec'), scope)
    except Exit as e:
        return ('exit', e.args[0])
    return ('end', None)


def scripts(S):
    """a script calls the function that is referred to, also when its package hides the module, but not when it is imported"""
    code = S.pick('returns', [None, 0, 3, 'text'])
    root = S.scratch()
    init = S.pick('package', ['', 'from .main import main\n', 'from .main import f as main\nimport sys as f\n'])
    put(root, {'e01_pkg/__init__.py': init, 'e01_pkg/main.py': MODULE.format(code=code), 'e01_pkg/deep/__init__.py': '', 'e01_pkg/deep/sys.py': MODULE.format(code=code),
               'e01_mod.py': MODULE.format(code=code)})
    module, obj = S.pick('module', ['e01_pkg.main', 'e01_pkg.deep.sys', 'e01_mod']), S.pick('object', ['f', 'c.g', 'main'])
    sys.path.insert(0, str(root))
    try:
        source = ObjectReference.parse(f'{module}:{obj}').execution_script_snippet()
        imported = run(source, '__mp_main__')
        calls = sys.modules[module].calls if module in sys.modules else []
        S.check(imported[0] == 'end' and not calls, 'a child process does not run the program again', info=lambda: (source, calls, imported))
        del calls[:]
        result = run(source, '__main__')
        calls = list(sys.modules[module].calls)
        target = ObjectReference.parse(f'{module}:{obj}').import_object()
        same = target is (sys.modules[module].c.g if obj == 'c.g' else sys.modules[module].f)
        whole = ObjectReference.parse(module).import_object() is sys.modules[module]
    finally:
        sys.path.remove(str(root))
        for m in [m for m in sys.modules if m.startswith('e01_')]:
            del sys.modules[m]
    S.check(calls == ['c.g' if obj == 'c.g' else 'f'], 'the function is called once', info=lambda: (source, calls))
    S.check(result == ('exit', code), 'the script exits with what the function returns', info=lambda: (source, result))
    S.check(same and whole, 'a reference is to its object, or to its module', info=lambda: (module, obj))
    S.reach('called')


class Env:
    def __init__(self, path, **k):
        self.interpreter_path = path
        self.operating_platform = OperatingPlatform(**{**dict(os='linux', os_bits=64, machine='x86_64', python_version=StandardVersion((3, 9)),
                                                              python_implementation='cpython', python_interpreter_bits=64), **k})


def executables(S, system):
    """the file of a script, on every platform"""
    out = S.scratch() / 'bin'
    interpreter = Path(S.pick('interpreter', ['/opt/my env/bin/python', '/opt/é/bin/python3.9', '/e/Scripts/python.exe']))
    machine, bits = S.pick('machine', [('x86_64', 64), ('amd64', 64), ('x86', 32), ('arm64', 64), ('aarch64', 64)] if system == 'windows' else [('x86_64', 64), ('aarch64', 64)])
    env = Env(interpreter, os=system, machine=machine, os_bits=bits)
    group, name = S.pick('group', ['console_scripts', 'gui_scripts']), S.pick('name', ['cmd', 'my-cmd.x', 'é'])
    ref = ObjectReference('a.b', 'c.d')
    path = Executables.generate_for_entrypoint(env, EntryPoint(group, name, ref), out)
    data = path.read_bytes()
    S.check([p.name for p in out.iterdir()] == [path.name] and path.parent == out, 'one file is made', info=lambda: list(out.iterdir()))
    line = b'#!' + str(interpreter).encode()
    source = ref.execution_script_snippet()
    if system != 'windows':
        S.check(path.name == name, 'the script has the name of its entry point', info=lambda: path)
        S.check(data == line + b'\n' + source.encode(), 'the script is run by the interpreter', info=lambda: data)
        S.check(os.stat(path).st_mode & 0o100, 'the script can be executed', info=lambda: oct(os.stat(path).st_mode))
    else:
        import pkm.launchers
        kind = ('t' if group == 'console_scripts' else 'w') + str(bits) + ('-arm' if machine in ('arm64', 'aarch64') else '')
        launcher = (Path(pkm.launchers.__file__).parent / f'{kind}.exe').read_bytes()
        S.check(path.name == name + '.exe', 'the program has the name of its entry point', info=lambda: path)
        S.check(data.startswith(launcher), 'the launcher is that of the platform and the kind of the program', info=lambda: (kind, len(data), len(launcher)))
        rest = data[len(launcher):]
        S.check(rest.startswith(line) and rest[len(line):].lstrip(b'\r\n').startswith(b'PK'), 'the launcher is told the interpreter', info=lambda: rest[:80])
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            S.check(z.namelist() == ['__main__.py'] and z.read('__main__.py') == source.encode(), 'the launcher runs the script', info=lambda: z.namelist())
    S.reach('made')


FIRST = ['#!python', '#!pythonw', '#!python3 -u', '#!/usr/bin/python', '#!/bin/sh', '', 'python', ' #!python', '#! python']


def shebangs(S, n):
    """scripts of wheels, with any content"""
    root = S.scratch()
    name = S.pick('interpreter', ['python', 'python3.9', 'python.exe'])
    gui = S.flag('there is a pythonw')
    put(root, {name: 'interpreter'})
    stem, dot, suffix = name.rpartition('.')
    if gui:
        put(root, {f'{stem}w.{suffix}' if dot else name + 'w': 'gui'})
    first = S.pick('first', FIRST)
    end = S.pick('line end', ['\n', '\r\n', ''])
    rest = S.conc(S.str('rest', '#\n\r', 0, n)) if end else ''
    content = (first + end + rest).encode() + (b'\xff\x00' if S.flag('binary') else b'')
    source, target = root / 's', root / 't'
    source.write_bytes(content)
    mode = S.pick('mode', [0o600, 0o755])
    os.chmod(source, mode)
    Executables.patch_shabang_for_interpreter(source, target, root / name)
    got = target.read_bytes()
    S.check(source.read_bytes() == content, 'the script of the wheel is left as it is')
    S.check(os.stat(target).st_mode & 0o777 == mode | 0o100, 'the script can be executed', info=lambda: oct(os.stat(target).st_mode))
    if not content.startswith(b'#!python'):
        S.check(got == content, 'other files are copied as they are', info=lambda: (content, got))
        return S.reach('copied')
    head, sep, tail = got.partition(b'\n')
    program = Path(head[2:].decode().strip())
    S.check(head.startswith(b'#!') and program.exists() and program.parent == root and sep, 'the script names an interpreter that exists', info=lambda: (got,))
    S.check(program.read_text() == ('gui' if gui and first == '#!pythonw' else 'interpreter'), 'the interpreter is the one that is asked for', info=lambda: (got,))
    S.check(tail == content.partition(b'\n')[2], 'the rest of the script stays', info=lambda: (content, got))
    S.reach('patched')


def records(S, n):
    """RECORD files"""
    path = S.scratch() / 'RECORD'
    c = RecordsFileConfiguration.load(path)
    want = []
    for i in range(n):
        file = S.pick(f'file{i}', ['a.py', 'a, b.py', 'q"q.py', 'é/../x y.py', '../../bin/x', "sp'c "])
        h = S.pick(f'hash{i}', [None, 'sha256=abc_-x', 'md5=00'])
        size = S.pick(f'size{i}', [None, 0, 12])
        want.append((file, h, size))
        c.records.append(Record(file, h and HashSignature.parse_urlsafe_base64_nopad_encoded(h), size))
    c.save()
    S.check([tuple(r) for r in _csv(path)] == [(f, h or '', '' if s is None else str(s)) for f, h, s in want], 'the file has the records', info=lambda: path.read_text())
    if S.flag('blank line'):
        path.write_text(path.read_text() + '\n')
    back = [(r.file, r.hash_signature and str(r.hash_signature), r.length) for r in RecordsFileConfiguration.load(path).records]
    S.check(back == want, 'what is read is what has been written', info=lambda: (path.read_text(), back, want))
    S.reach('written')


def _csv(path):
    import csv
    with open(path, newline='', encoding='utf-8') as f:
        return list(csv.reader(f))


def links(S):
    root = S.scratch()
    paths = [root / p for p in S.pick('paths', [('a',), ('a b', 'é'), ()])]
    imports = list(S.pick('imports', [(), ('x',), ('x.y', 'z')]))
    f = root / 'l.pth'
    PthLink(f, paths, imports).save()
    lines = [line for line in f.read_text().splitlines() if line.strip() and not line.startswith('#')]
    S.check(sorted(l for l in lines if not l.startswith('import ')) == sorted(map(str, paths)), 'the links are those of the paths', info=lambda: lines)
    S.check(sorted(l for l in lines if l.startswith('import ')) == sorted(f'import {i}' for i in imports), 'the imports are made', info=lambda: lines)
    if S.flag('comments'):
        f.write_text('# c\n\n' + f.read_text() + '\n#/x\n')
    back = PthLink.load(f)
    S.check(sorted(map(str, back.links)) == sorted(map(str, paths)) and sorted(back.imports or []) == sorted(imports), 'links are read', info=lambda: (back.links, back.imports))
    S.reach('linked')


def cases(tier):
    t = tier == 'thorough'
    n = 5 if t else 4
    out = []
    for prefix, alphabet, suffix in (('', 'a.: ', ''), ('', 'a:[] ', ''), ('a', ' :[a', ']'), ('a:b', ' [,a', ']'), ('a.b', ': .b', ''), ('a[', 'a, ', ']')):
        out.append(Case(f'reference {prefix}?{suffix} of {alphabet}', references, dict(prefix=prefix, n=n, alphabet=alphabet, suffix=suffix),
                        bounds=f'references with up to {n} characters', reach=['reference'], timeout=600))
    for g in (1, 2):
        out.append(Case(f'{g} entry points in a file', files, dict(groups=g), bounds='entry points with names of any characters', reach=['written'], timeout=600))
    out += [Case('files of others', foreign, {}, bounds='six forms', reach=['read']),
            Case('scripts', scripts, {}, bounds='modules and functions in packages that hide them', reach=['called']),
            Case('executables on posix', executables, dict(system='linux'), bounds='every platform', reach=['made']),
            Case('executables on windows', executables, dict(system='windows'), bounds='every platform', reach=['made']),
            Case('scripts of wheels', shebangs, dict(n=2 if t else 1), bounds='scripts of nine kinds', reach=['copied', 'patched'], timeout=600),
            Case('one record', records, dict(n=1), bounds='a record', reach=['written']),
            Case('two records', records, dict(n=2), bounds='two records', reach=['written'], timeout=600),
            Case('links', links, {}, bounds='up to two links and imports', reach=['linked'])]
    return out
