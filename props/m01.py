"""M01: the metadata of a project says what the project says, also after it has been written to a file and read again."""
from email.parser import Parser
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package_metadata import PackageMetadata
from pkm.api.projects.pyproject_configuration import PyProjectConfiguration
from pkm.api.versions.version import StandardVersion
from pkm.api.versions.version_specifiers import VersionSpecifier

from props.j01 import copy_of
from sx.session import Case

PROPERTY = 'M01'
ASSUMPTIONS = ['the parser of messages of the standard library says what a metadata file means',
               'texts of more than one line, that only descriptions may be, are not in other fields; nor are encoded words of RFC 2047']
SPECIAL = '()<>@,:;".[]\\'


def config(**more):
    return PyProjectConfiguration.from_config({'project': {'name': 'my-p', 'version': '1.2', **copy_of(more)}}, Path('/nowhere/pyproject.toml')).project


def address(S, person):
    """name-addr of RFC 822"""
    name, email = person.get('name'), person.get('email')
    if not email or not name:
        return name or email
    out, special = '', False
    for c in name:
        special = S.any([special, S.any([c == s for s in SPECIAL])])
        out = out + ('\\' + c if S.any([c == '"', c == '\\']) else c)
    return f'"{out}" <{email}>' if special else out + ' <' + email + '>'


def joined(parts, sep):
    out = None
    for p in parts:
        out = p if out is None else out + sep + p
    return out


def people_of(S, kind, count, n, alphabet):
    out = []
    for i in range(count):
        p = {}
        if S.flag(f'{kind}{i} name?'):
            p['name'] = S.str(f'{kind}{i} name', alphabet, 1, n)
        if S.flag(f'{kind}{i} email?') or not p:
            p['email'] = S.str(f'{kind}{i} email', 'a@.', 1, 2)
        out.append(p)
    return out


def people(S, n, authors, maintainers):
    a, m = people_of(S, 'author', authors, n, 'aé", ('), people_of(S, 'maintainer', maintainers, n, 'ab"\\')
    raw = PackageMetadata.from_project_config(config(authors=a, maintainers=m)).to_config()
    for who, field in ((a, 'Author'), (m, 'Maintainer')):
        for key, want in ((field, [p['name'] for p in who if 'email' not in p]), (field + '-email', [address(S, p) for p in who if 'email' in p])):
            got = raw.get(key)
            S.check(got is None or got == '' if not want else got is not None and got == joined(want, ', '), 'people are named as PEP 621 says',
                    info=lambda: (key, got, want, a, m))
    S.reach('described')


def fields(S, n):
    p, want = {}, {}
    if S.flag('description?'):
        p['description'] = want['Summary'] = S.str('description', 'aé: ', 1, n)
    if S.flag('keywords?'):
        p['keywords'] = [S.str(f'keyword{i}', 'ab ', 1, n) for i in range(S.pick('keywords', [1, 2]))]
        want['Keywords'] = joined(p['keywords'], ',')
    if S.flag('classifiers?'):
        p['classifiers'] = want['Classifier'] = [S.str(f'classifier{i}', 'a: ', 1, n) for i in range(S.pick('classifiers', [1, 2]))]
    if S.flag('urls?'):
        p['urls'] = {k: S.str(f'url {k}', 'a:/', 1, n) for k in S.pick('urls', [('Home Page',), ('a', 'b')])}
        want['Project-URL'] = [k + ', ' + u for k, u in p['urls'].items()]
    if S.flag('readme?'):
        p['readme'] = {'text': S.str('readme', 'a\n', 1, n), 'content-type': 'text/x-rst'}
        want['Description'], want['Description-Content-Type'] = p['readme']['text'], 'text/x-rst'
    if S.flag('license?'):
        p['license'] = {'text': S.str('license', 'a ', 1, n)}
        want['License'] = p['license']['text']
    python = S.pick('python', [None, '>=3.8', '>=3.8, <4', '!=3.9.1'])
    if python:
        p['requires-python'] = python
    md = PackageMetadata.from_project_config(config(**p))
    raw = md.to_config()
    for key in ('Summary', 'Keywords', 'Description', 'License'):
        got = raw.get(key)
        S.check(got == want[key] if key in want else not got, 'a field has its value', info=lambda: (key, p, got))
    S.check(raw.get('Description-Content-Type') == want['Description-Content-Type'] if 'Description-Content-Type' in want else True, 'the type of the description is given',
            info=lambda: (p, raw))
    for key in ('Classifier', 'Project-URL'):
        got = raw.get(key) or []
        S.check(len(got) == len(want.get(key, [])) and S.all([g == w for g, w in zip(got, want.get(key, []))]), 'a field has all its values',
                info=lambda: (key, p, got))
    S.check(raw['Name'] == 'my-p' and str(raw['Version']) == '1.2', 'the name and version are those of the project', info=lambda: raw)
    got = raw.get('Requires-Python')
    S.check(str(VersionSpecifier.parse(got)) == str(VersionSpecifier.parse(python)) if python else got is None, 'the python that is required is given', info=lambda: (p, raw))
    S.check(str(md.required_python_spec) == str(VersionSpecifier.parse(python or '*')), 'the python that is required is known', info=lambda: (p, raw))
    S.reach('described')


MARKERS = [('', lambda v: True), ("os_name=='nt'", lambda v: False), ('python_version < "3.8" or os_name == "nt"', lambda v: v < 8),
           ('python_version >= "3.8"', lambda v: v >= 8)]


class Env:
    interpreter_version = StandardVersion((3, 9, 1))
    markers_hash = 'm'

    def __init__(self, **markers):
        self.markers = markers


def requirements(S, plain, groups):
    minor = S.int('minor', 5, 12)
    env = Env(python_version=StandardVersion((3, minor)), os_name='posix', sys_platform='linux')
    p, want = {}, []

    def requirement(group):
        marker, holds = S.pick(f'marker{len(want)}', MARKERS)
        want.append((f'd{len(want)}', group, holds(minor)))
        return want[-1][0] + S.pick(f'rest{len(want)}', ['', ' >=1,<2', '[x] @ https://h/f.whl']) + (f' ; {marker}' if marker else '')
    if plain:
        p['dependencies'] = [requirement(None) for _ in range(plain)]
    if groups:
        p['optional-dependencies'] = {g: [requirement(g)] if S.flag(f'{g} requires') else [] for g in groups}
    raw = PackageMetadata.from_project_config(config(**p)).to_config()
    S.check(sorted(raw.get('Provides-Extra') or []) == sorted(groups), 'the extras are declared', info=lambda: raw)
    S.trace(raw.get('Requires-Dist'))
    deps = PackageMetadata.from_config(raw).dependencies
    for asked in ([], *([g] for g in groups), list(groups)):
        got = [d.package_name for d in deps if d.is_applicable_for(env, asked)]
        for name, group, holds in want:
            S.check((name in got) == S.all([group is None or group in asked, holds]), 'a requirement is made when its extra is asked for and its marker holds',
                    info=lambda: (p, asked, name, got, raw))
    S.reach('described')


TEXT = 'aé:=,"?_'
VALUES = {'Summary': [TEXT, 'word ' * 40 + 'end', 'https://h/' + 'a' * 120, 'From x', 'ü' * 90],
          'Author-email': ['"D, é" <d@x.org>', 'Long Name ' * 12 + '<d@x.org>, Another <e@x.org>'],
          'Keywords': ['a,b c,d', 'k' * 100], 'License': ['MIT'], 'Author': [TEXT, 'n' * 100 + ', ' + 'm' * 30]}
MULTI = {'Requires-Dist': ['pkg @ https://x.org/' + 'a' * 100, 'pkg >=1; python_version > "3" and ' + ' and '.join(['os_name == "nt"'] * 6), 'b[x,y] >1.0a1'],
         'Classifier': ['Topic :: A', 'Topic :: ' + 'B ' * 60], 'Project-URL': ['Home, https://h/' + 'p/' * 60, 'é, https://h'], 'Provides-Extra': ['g', 'g-h'],
         'Dynamic': ['version']}
BODIES = ['', 'one line', 'é\n\nFrom x\n.\nHeader: y\n', '# t\n\n```\ncode = "=?utf-8?q?"\n```\n' + 'x' * 200 + '\n', '\n\nstarts and ends with lines\n\n', ' starts with a space',
          'trailing  \n\ttab\n--boundary\n']


def written(S, first, second, body):
    """files: values that are long, encoded, quoted or look like something else"""
    raw = {'Metadata-Version': '2.1', 'Name': 'my-p', 'Version': '1.2'}
    for f in (first, second):
        if f is None:
            continue
        if f in MULTI:
            raw[f] = S.pick(f, [[v] for v in MULTI[f]] + [MULTI[f], MULTI[f][::-1]])
        else:
            raw[f] = S.pick(f, VALUES[f]) if S.flag(f'{f} is long') else S.conc(S.str(f'text of {f}', TEXT, 1, 2 if second is None else 1))
    if body:
        raw['Description'] = S.pick('description', BODIES)
    path = S.scratch() / 'METADATA'
    md = PackageMetadata.from_config(dict(raw), path)
    want = {k: v for k, v in md.to_config().items() if v != []}
    md.save()
    text = path.read_text(encoding='utf-8')
    msg = Parser().parsestr(text)
    for key, value in want.items():
        if key == 'Description':
            continue
        got = msg.get_all(key)
        S.check(got == [str(v) for v in (value if isinstance(value, list) else [value])], 'the file has the field', info=lambda: (key, value, got, text))
    S.check(msg.get_payload() == raw.get('Description', ''), 'the file has the description', info=lambda: (raw, text))
    S.check(set(msg.keys()) == set(want) - {'Description'}, 'nothing else is written', info=lambda: (raw, text))
    back = PackageMetadata.load(path)
    S.check({k: v for k, v in back.to_config().items() if v not in ('', [])} == {k: v for k, v in want.items() if v not in ('', [])},
            'what is read is what has been written', info=lambda: (raw, back.to_config()))
    S.check(sorted(map(str, back.dependencies)) == sorted(str(Dependency.parse(d)) for d in raw.get('Requires-Dist', [])), 'requirements are read', info=lambda: raw)
    back.save()
    S.check(path.read_text(encoding='utf-8') == text, 'writing again changes nothing', info=lambda: (text, path.read_text(encoding='utf-8')))
    S.reach('written')


def cases(tier):
    t = tier == 'thorough'
    n = 3 if t else 2
    out = []
    for a, m in ((0, 1), (1, 1), (2, 0)) + (((2, 1),) if t else ()):
        out.append(Case(f'{a} authors and {m} maintainers', people, dict(n=n if a + m == 1 or t else 1, authors=a, maintainers=m),
                        bounds=f'names of up to {n} characters', reach=['described'], timeout=800))
    out.append(Case('fields', fields, dict(n=n - 1), bounds='every other field', reach=['described'], timeout=800))
    for plain, groups in ((2, ()), (1, ('g',)), (0, ('g', 'g.h'))):
        out.append(Case(f'{plain} requirements, extras {",".join(groups)}', requirements, dict(plain=plain, groups=groups),
                        bounds='requirements with markers', reach=['described'], timeout=800))
    names = [*VALUES, *MULTI]
    for f in names:
        out.append(Case(f'file with {f}', written, dict(first=f, second=None, body=False), bounds='one field', reach=['written'], timeout=300))
        if t or f in ('Summary', 'Requires-Dist'):
            for g in names:
                if g != f and (t or g in ('Classifier', 'Author')):
                    out.append(Case(f'file with {f} and {g}', written, dict(first=f, second=g, body=False), bounds='two fields', reach=['written'], timeout=300))
    out.append(Case('file with description', written, dict(first='Summary', second=None, body=True), bounds='a field and a description', reach=['written'], timeout=300))
    return out
