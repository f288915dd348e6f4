"""M02: the distributions of a project contain the project: its packages, its metadata, and what is needed to build it again."""
import csv
import hashlib
import io
import tarfile
import tomllib
import zipfile
from base64 import urlsafe_b64encode
from email.parser import Parser
from pathlib import Path

from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.environments.environment import Environment
from pkm.api.packages.package import PackageDescriptor
from pkm.api.projects.project import Project
from pkm.api.versions.version import NamedVersion, StandardVersion
from pkm.api.versions.version_specifiers import AllowAllVersions, StandardVersionRange, VersionSpecifier

from props._fs import put, snap
from sx.session import Case

PROPERTY = 'M02'
ASSUMPTIONS = ['the readers of zip and tar archives of the standard library say what an archive contains']

CONTENT = {'__init__.py': 'x = "é"\n', 'sub/__init__.py': '', 'sub/data.bin': b'\x00\xff\r\n', '__pycache__/m.cpython-39.pyc': b'cache', 'sub/__pycache__/m.pyc': b'c',
           '.hidden': 'h'}
BUILD = '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n'


class Env:
    """an environment of the current interpreter"""
    interpreter_version = StandardVersion((3, 12, 3))

    @classmethod
    def current(cls, *a):
        return cls()


def layout(S, how):
    """files of the project; package name -> its place"""
    names = ('a',) if S.flag('one package') else ('a', 'b_2')
    files, places = {}, {}
    base = {'src': 'src/', 'flat': '', 'listed': 'lib/', 'listed in src': 'src/'}[how]
    for n in names:
        places[n] = f'{base}{n}' if how != 'listed' or n == 'a' else f'other/deep/{n}'
        for f, c in CONTENT.items():
            files[f'{places[n]}/{f}'] = c.replace('x', n) if isinstance(c, str) else c
    if S.flag('things that are not packages'):
        files.update({'.git/config': 'g', '.venv/bin/python': 'p', 'a.egg-info/PKG-INFO': 'e', 'dist/0.1/a.whl': 'w', 'etc/pkm/x.toml': '', 'notes.txt': 'n'})
        if how == 'src':
            files.update({'src/p.egg-info/PKG-INFO': 'e', 'src/__pycache__/x.pyc': b'c', 'src/single.txt': '', 'tests/test_x.py': ''})
        if how == 'listed in src':
            files['src/not_listed/__init__.py'] = ''
    return files, places


def project_in(S, root, how):
    files, places = layout(S, how)
    p = ['[project]', 'name = "My-P"', f'version = "{S.pick("version", ["1.2", "1.0+local.1", "2a1"])}"']
    readme = S.pick('readme', [None, 'README.md', 'doc/README.rst'])
    if readme:
        p.append(f'readme = "{readme}"')
        files[readme] = 'read é\n\nme\n'
    lic = S.pick('license', [None, 'file', 'text'])
    if lic:
        p.append('license.file = "LICENCE.txt"' if lic == 'file' else 'license.text = "MIT"')
        files['LICENCE.txt'] = 'the licence é\n'
    if how.startswith('listed'):
        p.append('[tool.pkm.project]\npackages = [%s]' % ', '.join(f'"{v}"' for v in places.values()))
    entry = S.flag('entry points')
    if entry:
        p.append('[project.scripts]\ncmd = "a:main"\n[project.entry-points."x.y"]\nz = "a.sub:f"')
    p.append(BUILD)
    files['pyproject.toml'] = '\n'.join(p)
    put(root, files)
    return files, places, readme, lic, entry


def archive(path):
    if path.suffix == '.whl':
        with zipfile.ZipFile(path) as z:
            return {n: z.read(n) for n in z.namelist() if not n.endswith('/')}, z.namelist()
    with tarfile.open(path) as t:
        return {m.name: t.extractfile(m).read() for m in t.getmembers() if m.isfile()}, t.getnames()


def b(text):
    return text if isinstance(text, bytes) else text.encode()


def packages_of(files, places):
    return {n + f[len(place):]: b(c) for n, place in places.items() for f, c in files.items()
            if f.startswith(place + '/') and '__pycache__' not in f}


def check_info(S, got, info, want, files, prj, readme, lic, entry, inf):
    names = {n[len(info) + 1:] for n in got if n.startswith(info + '/')}
    S.check(names - {'entry_points.txt'} == {'METADATA', 'WHEEL', 'RECORD', 'LICENSE'} and (not entry or 'entry_points.txt' in names),
            'the wheel is described', info=inf)
    if not {'METADATA', 'WHEEL', 'RECORD', 'LICENSE'} <= names:
        return
    md = Parser().parsestr(got[f'{info}/METADATA'].decode())
    S.check(md['Name'] == prj.name and md['Version'] == str(prj.version), 'the metadata is that of the project', info=inf)
    S.check(md.get_payload() == (files[readme] if readme else ''), 'the description is the readme', info=inf)
    if readme:
        S.check(md['Description-Content-Type'] == ('text/markdown' if readme.endswith('md') else 'text/x-rst'), 'the type of the description is that of the readme', info=inf)
    S.check(got[f'{info}/LICENSE'].decode() == {None: '', 'text': 'MIT', 'file': files.get('LICENCE.txt')}[lic], 'the license is there', info=inf)
    wheel = Parser().parsestr(got[f'{info}/WHEEL'].decode())
    S.check(wheel['Wheel-Version'] == '1.0' and wheel['Root-Is-Purelib'] == 'true', 'the wheel is said to be one', info=inf)
    if entry:
        lines = [l.replace(' ', '') for l in got[f'{info}/entry_points.txt'].decode().splitlines() if l.strip()]
        S.check(sorted(lines) == sorted(['[console_scripts]', 'cmd=a:main', '[x.y]', 'z=a.sub:f']), 'the entry points are there', info=lambda: lines)
    records = {r[0]: r[1:] for r in csv.reader(io.StringIO(got[f'{info}/RECORD'].decode())) if r}
    for f, c in got.items():
        if f != f'{info}/RECORD':
            S.check(f in records and records[f] == ['sha256=' + urlsafe_b64encode(hashlib.sha256(c).digest()).decode().rstrip('='), str(len(c))],
                    'every file is recorded with its hash and size', info=lambda: (f, records.get(f)))
    S.check(set(records) <= set(got), 'only the files are recorded', info=inf)


def built(S, how, sdist):
    S.patch(Environment, 'current', classmethod(lambda cls, *a: Env()))
    root, out = S.scratch(), S.scratch()
    files, places, readme, lic, entry = project_in(S, root / 'p', how)
    before = snap(root)
    prj = Project.load(root / 'p')
    wheel = prj.build_wheel(out / 'w')
    got, listed = archive(wheel)
    base = f'My_P-{prj.version}'
    info = f'{base}.dist-info'
    inf = lambda: (how, sorted(got))
    S.check(wheel.parent == out / 'w' and [p.name for p in (out / 'w').iterdir()] == [wheel.name], 'the wheel is where it was asked for', info=inf)
    S.check(wheel.name.startswith(base + '-py') and wheel.name.endswith('-none-any.whl'), 'the wheel is named as one', info=lambda: wheel.name)
    S.check(len(listed) == len(set(listed)), 'nothing is there twice', info=lambda: listed)
    code = {f: c for f, c in got.items() if not f.startswith(info + '/')}
    want = packages_of(files, places)
    if how == 'flat':  # other directories than the packages may hold sources, too
        code = {f: c for f, c in code.items() if not f.startswith('doc/')}
    S.check(code == want, 'the wheel contains the packages', info=lambda: (how, sorted(code), sorted(want)))
    check_info(S, got, info, want, files, prj, readme, lic, entry, inf)
    if sdist:
        src = prj.build_sdist(out / 's')
        content, listed = archive(src)
        S.check(src.name == f'{base}.tar.gz' and src.parent == out / 's', 'the source distribution is named as one', info=lambda: src.name)
        S.check(all(n == base or n.startswith(base + '/') for n in listed), 'the source distribution has one directory', info=lambda: listed)
        S.check(f'{base}/PKG-INFO' in content and Parser().parsestr(content[f'{base}/PKG-INFO'].decode())['Version'] == str(prj.version),
                'the source distribution has the metadata', info=lambda: listed)
        S.check(not any('__pycache__' in n or '.git/' in n or '.venv/' in n for n in listed), 'only sources are in the source distribution', info=lambda: listed)
        again = S.scratch()
        put(again, content)
        meant = tomllib.loads((again / base / 'pyproject.toml').read_text())
        own = tomllib.loads(files['pyproject.toml'])
        S.check({**own['project'], 'name': prj.name} == {**meant['project'], 'name': prj.name}, 'the source distribution is of the project', info=lambda: (own, meant))
        second = Project.load(again / base).build_wheel(again / 'w')
        rebuilt, _ = archive(second)
        record = f'{info}/RECORD'
        if how == 'flat':
            rebuilt = {f: c for f, c in rebuilt.items() if not f.startswith('doc/')}
            got = {f: c for f, c in got.items() if not f.startswith('doc/')}
        S.check(second.name == wheel.name and {f: c for f, c in rebuilt.items() if f != record} == {f: c for f, c in got.items() if f != record},
                'the wheel of the source distribution is the wheel of the project', info=lambda: (sorted(rebuilt), sorted(got)))
    S.check({f: c for f, c in snap(root).items() if f not in ('p/etc', 'p/etc/pkm')} == {f: c for f, c in before.items() if f not in ('p/etc', 'p/etc/pkm')},
            'the project is left as it is', info=lambda: sorted(snap(root)))
    S.reach('built')


def editable(S, how):
    S.patch(Environment, 'current', classmethod(lambda cls, *a: Env()))
    root, out = S.scratch(), S.scratch()
    files, places, *_ = project_in(S, root, how)
    prj = Project.load(root)
    only = S.flag('only metadata')
    result = prj.build_wheel(out, only_meta=only, editable=not only)
    if only:
        S.check(result == out / f'My_P-{prj.version}.dist-info' and {p.name for p in result.iterdir()} >= {'METADATA', 'WHEEL'}, 'the metadata is built',
                info=lambda: (result,))
        S.check(Parser().parsestr((result / 'METADATA').read_text())['Version'] == str(prj.version), 'the metadata is that of the project')
        return S.reach('metadata')
    got, _ = archive(result)
    code = {f: c for f, c in got.items() if '.dist-info/' not in f}
    S.check(len(code) == 1 and all(f.endswith('.pth') and '/' not in f for f in code), 'only a link is in the wheel', info=lambda: sorted(got))
    links = {l for c in code.values() for l in c.decode().splitlines()}
    S.check(links == {str((root / p).parent) for p in places.values()}, 'the link is to where the packages are', info=lambda: (links,))
    S.reach('linked')


def tags_of(name):
    return [f'{py}-{abi}-{plat}' for pys, abi, plat in [name[:-4].split('-')[-3:]] for py in pys.split('.')]


class Prj:
    def __init__(self, descriptor, requires):
        self.descriptor, self.version, self.name = descriptor, descriptor.version, descriptor.name
        self.config = type('C', (), {})()
        self.config.project = type('P', (), {'requires_python': requires})()


def named(S, kind):
    """a wheel can be used by every interpreter of the current major version that the project allows"""
    S.patch(Environment, 'current', classmethod(lambda cls, *a: Env()))
    major, minor, patch = S.int('major', 2, 4), S.int('minor', 0, 12), S.int('patch', 0, 2)
    lo = StandardVersion((major, minor, patch)[:S.pick('length', [1, 2, 3])])
    top = StandardVersion((4,))
    if kind == 'range':
        S.assume(major < 4)
        req = StandardVersionRange(lo, S.pick('to', [None, top]), S.flag('inclusive'), False)
    elif kind == 'upper':
        req = StandardVersionRange(None, lo, False, S.flag('inclusive'))
    elif kind == 'match':
        req = VersionSpecifier.parse(f'!={S.conc(minor)}.1')
    else:
        req = AllowAllVersions
    S.trace(str(req))
    i = S.int('interpreter', 3, 15)
    S.assume(req.allows_version(StandardVersion((3, 12, 3))))  # the one that builds
    name = WheelDistribution.expected_wheel_file_name(Prj(PackageDescriptor('a-b', StandardVersion((1,))), req))
    S.trace(name)
    tags = tags_of(name)
    S.check(name.startswith('a_b-1-') and all(t.endswith('-none-any') for t in tags), 'the wheel is named as one', info=lambda: name)
    v = StandardVersion((3, i, 1))
    if req.allows_version(v):
        usable = S.any([S.any([t == 'py3-none-any'] + [S.all([t == f'py3{k}-none-any', k <= i]) for k in range(20)]) for t in tags])
        S.check(usable, 'an interpreter that is allowed can use the wheel', info=lambda: (name, str(req), str(v)))
        S.reach('allowed')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for how in ('src', 'flat', 'listed', 'listed in src'):
        out.append(Case(f'{how}: distributions', built, dict(how=how, sdist=True), bounds='every combination of the options', reach=['built'], timeout=600, sandbox=True))
        out.append(Case(f'{how}: links', editable, dict(how=how), bounds='every combination of the options', reach=['linked', 'metadata'], timeout=600, sandbox=True))
    for kind in ('range', 'upper', 'match', 'all'):
        out.append(Case(f'name: {kind}', named, dict(kind=kind), bounds='python 2.0 to 4.12', reach=['allowed'], timeout=600))
    return out
