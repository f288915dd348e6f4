"""J01: what a project says about itself is understood as PEP 621 defines it, and survives loading and saving."""
import copy
import tomllib
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.projects.pyproject_configuration import PyProjectConfiguration
from pkm.api.versions.version import StandardVersion, Version
from pkm.api.versions.version_specifiers import VersionSpecifier

from sx.session import Case

PROPERTY = 'J01'
ASSUMPTIONS = ['the parser of the standard library (tomllib) says what a document means',
               'that requirements, versions and version specifiers are read and written right is decided by other properties']

BASE = {'name': 'p', 'version': '1.2.3'}


class Env:
    interpreter_version = StandardVersion((3, 9, 1))
    markers_hash = 'm'

    def __init__(self, **markers):
        self.markers = markers


def parsed(kind, values):
    return sorted(str(kind.parse(v)) for v in values)


def canon(raw):
    """the meaning of a document: what is spelled in two ways is spelled in one, what is empty is left out"""
    def drop(d, k, empty=({}, [])):
        if k in d and d[k] in empty:
            del d[k]
    raw = copy_of(raw)
    p = raw.get('project')
    if p is not None:
        if isinstance(p.get('readme'), str):
            p['readme'] = {'file': p['readme']}
        for k in ('dependencies',):
            if k in p:
                p[k] = [str(Dependency.parse(d)) for d in p[k]]
        if 'optional-dependencies' in p:
            p['optional-dependencies'] = {g: [str(Dependency.parse(d)) for d in ds] for g, ds in p['optional-dependencies'].items()}
        if 'requires-python' in p:
            p['requires-python'] = str(VersionSpecifier.parse(p['requires-python']))
        for k in ('dependencies', 'optional-dependencies', 'scripts', 'gui-scripts', 'entry-points'):
            drop(p, k)
        drop(p, 'requires-python', ('*', ''))
    tool = raw.setdefault('tool', {})
    pkm = tool.setdefault('pkm', {})
    pkm.setdefault('distribution', {}).setdefault('type', 'lib')
    pkm.setdefault('project', {})
    bs = raw.setdefault('build-system', {'requires': ['setuptools', 'wheel', 'pip']})
    bs.setdefault('build-backend', 'setuptools.build_meta:__legacy__')
    bs['requires'] = [str(Dependency.parse(d)) for d in bs.get('requires', [])]
    app = pkm.get('application')
    if app:
        for k in ('dependencies',):
            if k in app:
                app[k] = [str(Dependency.parse(d)) for d in app[k]]
    return raw


def copy_of(v):
    if isinstance(v, dict):
        return {k: copy_of(w) for k, w in v.items()}
    if isinstance(v, list):
        return [copy_of(w) for w in v]
    return v


def equal(S, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not isinstance(a, dict) or not isinstance(b, dict) or set(a) != set(b):
            return False
        return S.all([equal(S, a[k], b[k]) for k in a])
    if isinstance(a, list) or isinstance(b, list):
        if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
            return False
        return S.all([equal(S, x, y) for x, y in zip(a, b)])
    if isinstance(a, (bool, int)) or a is None:
        return type(a) == type(b) and a == b
    return isinstance(a, str) == isinstance(b, str) and a == b


def load(raw):
    return PyProjectConfiguration.from_config(copy_of(raw), Path('/nowhere/pyproject.toml'))


def kept(S, raw):
    c = load(raw)
    out = c.to_config()
    S.check(equal(S, canon(out), canon(raw)), 'saving keeps what was loaded', info=lambda: (raw, out))
    again = load(out).to_config()
    S.check(equal(S, again, out), 'saving again changes nothing', info=lambda: (raw, out, again))
    S.reach('kept')
    return c


def project(**more):
    return {'project': {**BASE, **{k.replace('_', '-'): v for k, v in more.items() if v is not None}}}


def text(S, name, n, alphabet='aé"( ,\\<@', least=1):
    return S.str(name, alphabet, least, n)


def contacts(S, n):
    def people(kind, count):
        out = []
        for i in range(count):
            c = {}
            if S.flag(f'{kind}{i} name?'):
                c['name'] = text(S, f'{kind}{i} name', n, least=0)
            if S.flag(f'{kind}{i} email?') or not c:
                c['email'] = text(S, f'{kind}{i} email', n, 'a@é.')
            out.append(c)
        return out
    a, m = people('author', S.pick('authors', [0, 1, 2])), people('maintainer', S.pick('maintainers', [0, 1]))
    c = kept(S, project(authors=a or None, maintainers=m or None))
    for got, want in ((c.project.authors or [], a), (c.project.maintainers or [], m)):
        S.check(len(got) == len(want) and S.all([S.all([g.name == w.get('name'), g.email == w.get('email')]) for g, w in zip(got, want)]),
                'people are who they are', info=lambda: (want, [(g.name, g.email) for g in got]))


def texts(S, n):
    """the fields that are text, lists of texts or tables of texts"""
    p = {}
    if S.flag('description?'):
        p['description'] = text(S, 'description', n, 'a\n"# é', 0)
    if S.flag('keywords?'):
        p['keywords'] = [text(S, f'keyword{i}', n, 'a ,', 0) for i in range(S.pick('keywords', [0, 1, 2]))]
    if S.flag('classifiers?'):
        p['classifiers'] = [text(S, f'classifier{i}', n, 'a:') for i in range(S.pick('classifiers', [1, 2]))]
    if S.flag('urls?'):
        p['urls'] = {k: text(S, f'url {k}', n, 'a:/ ') for k in S.pick('urls', [(), ('Home Page',), ('a', 'b')])}
    c = kept(S, project(**p))
    for f in ('description', 'keywords', 'classifiers', 'urls'):
        got, want = getattr(c.project, f), p.get(f)
        S.check(got is None if want is None else equal(S, got, want), 'the field has its value', info=lambda: (f, got, want))


def documents(S, n):
    """readme and license: texts and files"""
    root = S.scratch()
    content = {}
    for f in ('R.md', 'R.rst', 'R.txt', 'R', 'doc/R.MD.md', 'L'):
        content[f] = f'text of {f}: é\n'
        (root / f).parent.mkdir(exist_ok=True)
        (root / f).write_text(content[f], encoding='utf-8')
    p = {}
    how = S.pick('readme', ['none', 'file', 'table of file', 'table of text', 'missing'])
    file = S.pick('file', ['R.md', 'R.rst', 'R.txt', 'R', 'doc/R.MD.md']) if 'file' in how else 'missing.md'
    written = text(S, 'readme text', n, 'a\n.', 0)
    if how != 'none':
        p['readme'] = file if how in ('file', 'missing') else {'file': file} if how == 'table of file' else {'text': written}
    kind = S.pick('content type', [None, 'text/x-rst', 'text/markdown; charset=UTF-8']) if how.startswith('table') else None
    if kind:
        p['readme']['content-type'] = kind
    lic = S.pick('license', ['none', 'file', 'text'])
    lic_text = text(S, 'license text', n, 'a\n', 0)
    if lic != 'none':
        p['license'] = {'file': 'L'} if lic == 'file' else {'text': lic_text}
    c = kept(S, project(**p)).project
    want = {'none': '', 'missing': '', 'table of text': written}.get(how)
    want = content[file] if want is None else want
    S.check(c.readme_content(root) == want, 'the readme is the text or the content of the file', info=lambda: (p, c.readme_content(root)))
    S.check(c.license_content(root) == {'none': '', 'file': content['L'], 'text': lic_text}[lic], 'the license is the text or the content of the file',
            info=lambda: (p, c.license_content(root)))
    suffixes = {'md': 'text/markdown', 'rst': 'text/x-rst'}
    if how != 'none':
        want_kind = kind or (suffixes.get(file.rsplit('.', 1)[-1], 'text/plain') if 'text' not in how else 'text/plain')
        S.check(c.readme_content_type() == want_kind, 'the content type is the one that is given, or that of the file',
                info=lambda: (p, c.readme_content_type(), want_kind))


def entry_points(S, n):
    p, want = {}, []
    names = ('cmd', 'my-cmd.x', 'Cmd')
    for table, group in (('scripts', 'console_scripts'), ('gui-scripts', 'gui_scripts'), ('plain', 'my.group-x'), ('plain', 'other')):
        for name in names[:S.pick(f'in {group}', range(n + 1))]:
            module, obj = S.str(f'{group} {name} module', 'ab_', 1, 1), S.str(f'{group} {name} object', 'cd', 1, 1)
            with_object = table != 'plain' or S.flag(f'{group} {name} names an object')
            ref = module + '.m' + (':' + obj + '.f' if with_object else '')
            want.append((group, name, module + '.m', obj + '.f' if with_object else None))
            d = p.setdefault('entry-points', {}).setdefault(group, {}) if table == 'plain' else p.setdefault(table, {})
            d[name] = ref
    c = kept(S, project(**p))
    for _ in range(2):  # asking changes nothing
        got = [(g, e) for g, es in c.project.entry_points.items() for e in es]
        flat = c.project.all_entrypoints()
        scripts = list(c.project.script_entrypoints())
    S.check(len(got) == len(want) == len(flat) and len(scripts) == sum(g.endswith('_scripts') for g, *_ in want), 'there are as many entry points',
            info=lambda: (p, got))
    for group, name, module, obj in want:
        mine = [e for g, e in got if g == group == e.group and e.name == name]
        S.check(len(mine) == 1 and S.all([mine[0].ref.module_path == module, mine[0].ref.object_path == obj]),
                'every entry point is there, in its group', info=lambda: (p, got))
        S.check(sum(e.group == group and e.name == name for e in flat) == 1, 'all the entry points are listed', info=lambda: (p, flat))
        S.check(sum(e.group == group and e.name == name for e in scripts) == group.endswith('_scripts'), 'scripts are the scripts',
                info=lambda: (p, scripts))


MARKERS = [('', lambda v: True), ('os_name == "posix"', lambda v: True), ("os_name=='nt'", lambda v: False), ('python_version >= "3.8"', lambda v: v >= 8),
           ('python_version < "3.8" or os_name == "nt"', lambda v: v < 8), ('(python_version < "3.8") and (os_name == "posix")', lambda v: v < 8),
           ('os_name == "nt" or python_version > "3.8"', lambda v: v > 8)]
VERSIONS = ['', ' >=1,<2', ' @ https://h/f.whl', '[x,y] ==1.0']


def dependencies(S, n, groups):
    """requirements and optional requirements, with markers, and an interpreter whose version is not known"""
    minor = S.int('minor', 5, 12)
    env = Env(python_version=StandardVersion((3, minor)), os_name='posix', sys_platform='linux')
    want, p, i = [], {}, 0

    def requirement(group):
        nonlocal i
        i += 1
        marker, holds = S.pick(f'marker{i}', MARKERS if len(groups) < 2 else MARKERS[:1] + MARKERS[4:])
        version = S.pick(f'version{i}', VERSIONS) if i == 1 else ''
        own = group and S.flag(f'{i} names its extra')
        if own:
            marker = f'extra == "{group}"' if not marker else f'({marker}) and extra == \'{group}\''
        want.append((f'd{i}', group, holds(minor)))
        return f'd{i}{version}' + (f' ; {marker}' if marker else '')
    if S.flag('dependencies?'):
        p['dependencies'] = [requirement(None) for _ in range(n)]
    if groups:
        p['optional-dependencies'] = {g: [requirement(g)] for g in groups}
    c = kept(S, project(**p)).project
    for asked in ([], ['g'], ['g-h'], ['g', 'g-h'], ['other']):
        got = [d.package_name for d in c.all_dependencies if d.is_applicable_for(env, asked)]
        for name, group, holds in want:
            S.check((name in got) == S.all([group is None or group in asked, holds]), 'a requirement is made when its extra is asked for and its marker holds',
                    info=lambda: (p, asked, name, got, str([str(d) for d in c.all_dependencies])))
    S.check(sorted(d.package_name for d in c.all_dependencies) == sorted(w[0] for w in want), 'every requirement is listed once', info=lambda: (p,))
    for d in c.all_dependencies:
        if d.package_name == 'd1':
            src = Dependency.parse(next(r for r in p.get('dependencies', []) + [r for rs in p.get('optional-dependencies', {}).values() for r in rs]
                                        if r.startswith('d1')))
            S.check(str(d.version_spec) == str(src.version_spec) and d.required_url() == src.required_url() and d.extras == src.extras,
                    'a requirement keeps what it requires', info=lambda: (p, str(d)))


def tables(S, n, ours):
    """everything else: what pkm knows about and what it does not"""
    raw = project()
    if not ours:
        raw = project(requires_python=S.pick('requires-python', [None, '>=3.8', '*', '>=3.8,<4', '!=3.9', '==3.9.*']),
                      dynamic=S.pick('dynamic', [None, ['dependencies'], ['readme', 'version']]))
    if S.flag('unknown in project'):
        raw['project']['custom'] = {'x': text(S, 'custom', n), 'y': [1, True]}
    tool = {}
    if ours and S.flag('packages'):
        tool.setdefault('project', {})['packages'] = S.pick('which', [[], ['a'], ['lib/a', 'lib/b']])
    if ours and S.flag('group'):
        tool.setdefault('project', {})['group'] = '../'
    dist = S.pick('distribution', [None, 'lib', 'cnt-app', 'none']) if ours else None
    if dist:
        tool['distribution'] = {'type': dist}
    app = ours and S.flag('application')
    if app:
        tool['application'] = {'containerized': S.flag('containerized')}
        if S.flag('frozen'):
            tool['application'].update({'dependencies': ['a >=1', 'b'], 'dependency-overwrites': {'a': 'a ==2'}, 'exposed-packages': ['a']})
    if S.flag('unknown in tool.pkm'):
        tool['other'] = {'k': text(S, 'other', n)}
    if tool:
        raw['tool'] = {'pkm': tool}
    if S.flag('other tools'):
        raw.setdefault('tool', {})['black'] = {'line': 3, 'pkm': {'project': {'packages': [2]}}}
    if not ours and S.flag('unknown'):
        raw['unknown'] = [{'a': 1}, {'b': {'c': []}}]
    bs = S.pick('build system', [None, 'pkm', 'other']) if not ours else None
    if bs:
        raw['build-system'] = {'requires': ['pkm'], 'build-backend': 'pkm.api.buildsys'} if bs == 'pkm' else {
            'requires': ['setuptools >=40', 'wheel'], 'build-backend': 'x.y:z', 'backend-path': ['.', 'tools']}
    c = kept(S, raw)
    p = c.pkm_project
    S.check(p.packages == tool.get('project', {}).get('packages') and p.group == tool.get('project', {}).get('group'), 'the packages are those that are given',
            info=lambda: (raw, p))
    S.check(c.pkm_distribution.type == (dist or 'lib'), 'the kind of distribution is the one that is given', info=lambda: (raw,))
    S.check((c.pkm_application is not None) == app, 'an application is one that says so', info=lambda: (raw,))
    if app:
        S.check(c.pkm_application.containerized == tool['application']['containerized'], 'it is containerized if it says so', info=lambda: (raw,))
    S.check(c.build_system.build_backend == (raw.get('build-system') or {}).get('build-backend', 'setuptools.build_meta:__legacy__'),
            'the build backend is the one that is given', info=lambda: (raw,))
    dynamic = raw['project'].get('dynamic') or []
    for f in ('dependencies', 'optional-dependencies', 'version'):
        S.check(bool(c.project.is_dynamic(f)) == (f in dynamic), 'what is dynamic is said to be', info=lambda: (raw, f))


FILE = '''# about
[project]
name = "my-project"  # the name
version = "1.0"
{fields}
{tables}
[tool.black]
line = 3 # kept
'''
FIELDS = ['authors = [{name = "José, \\"x\\""}, {email = "a@b.c"}]', 'readme = "R.md"', 'readme = {file = "R", content-type = "text/x-rst"}', 'dependencies = ["a >=1"]',
          'optional-dependencies.g = ["b; os_name == \'nt\'"]', 'dynamic = ["dependencies"]', 'license.text = "MIT"', 'requires-python = ">=3.8"']
TABLES = ['[project.scripts]\nx = "a:b"', '[tool.pkm.project]\npackages = ["lib/x"]', '[tool.pkm.other]\nk = 1', '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"',
          '[tool.pkm.application]\ncontainerized = true']


def in_file(S, fields, tables):
    root = S.scratch()
    path = root / 'pyproject.toml'
    chosen = []
    for i in range(fields):
        left = FIELDS[FIELDS.index(chosen[-1]) + 1:] if chosen else FIELDS
        if not left or S.flag(f'no more than {i}'):
            break
        chosen.append(S.pick(f'field{i}', left))
    keys = [c.split(' ')[0].split('.')[0] for c in chosen]
    S.assume(len(set(keys)) == len(keys))
    more = [t for t in TABLES if S.flag(t.split('\n')[0])] if tables else []
    path.write_text(FILE.format(fields='\n'.join(chosen), tables='\n'.join(more)), encoding='utf-8')
    raw = tomllib.loads(path.read_text(encoding='utf-8'))
    c = PyProjectConfiguration.load_effective(path)
    how = S.pick('edit', ['nothing', 'version', 'add', 'remove', 'application'])
    if how == 'version':
        c.project.version = Version.parse('2.0')
        raw['project']['version'] = '2.0'
    elif how == 'add':
        c.project.dependencies.append(Dependency.parse('new >=3'))
        raw['project'].setdefault('dependencies', []).append('new >=3')
    elif how == 'remove':
        c.project.dependencies, c.project.optional_dependencies = [], {}
        raw['project'].pop('dependencies', 0), raw['project'].pop('optional-dependencies', 0)
    elif how == 'application':
        S.assume('[tool.pkm.application]\ncontainerized = true' in more)
        c.pkm_application.containerized = False
        raw['tool']['pkm']['application']['containerized'] = False
    c.save()
    out = path.read_text(encoding='utf-8')
    S.check(canon(tomllib.loads(out)) == canon(raw), 'the file says what it said, and what was changed', info=lambda: (out, raw))
    S.check('# about' in out and '# the name' in out and '# kept' in out, 'comments stay', info=lambda: out)
    again = PyProjectConfiguration.load(path)
    again.save()
    S.check(path.read_text(encoding='utf-8') == out, 'saving again changes nothing', info=lambda: (out, path.read_text(encoding='utf-8')))
    S.reach('kept')


def cases(tier):
    t = tier == 'thorough'
    n = 2 if t else 1
    out = [
        Case('people', contacts, dict(n=n + 1), bounds='up to two authors and a maintainer, names of up to %d characters' % (n + 1), reach=['kept'], timeout=600),
        Case('texts', texts, dict(n=n), bounds='descriptions, keywords, classifiers and urls', reach=['kept'], timeout=600),
        Case('readme and license', documents, dict(n=n + 1), bounds='every form of them', reach=['kept'], timeout=600),
        Case('entry points', entry_points, dict(n=n), bounds='up to %d entry points in each of four groups' % n, reach=['kept'], timeout=600),
        Case('requirements', dependencies, dict(n=2, groups=()), bounds='two requirements with markers', reach=['kept'], timeout=600),
        Case('optional requirements', dependencies, dict(n=1, groups=('g',)), bounds='one requirement, one optional one', reach=['kept'], timeout=600),
        Case('two extras', dependencies, dict(n=0, groups=('g', 'g-h')), bounds='two extras, one optional requirement each', reach=['kept'], timeout=600),
        Case('tables of pkm', tables, dict(n=n, ours=True), bounds='the tables of pkm and others', reach=['kept'], timeout=900),
        Case('other tables', tables, dict(n=n, ours=False), bounds='the tables of others', reach=['kept'], timeout=900),
        Case('in a file', in_file, dict(fields=2, tables=False), bounds='two fields and an edit', reach=['kept'], timeout=600),
        Case('tables in a file', in_file, dict(fields=1, tables=True), bounds='a field, the tables and an edit', reach=['kept'], timeout=600),
    ]
    return out
