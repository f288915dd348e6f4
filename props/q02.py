"""Q02: what package indexes and directories of packages offer is what their pages, answers and files list."""
import tarfile
import zipfile
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.wheel_distribution import InstallationException
from pkm.api.packages import standard_package as sp
from pkm.api.pkm import pkm
from pkm.api.versions.version import StandardVersion, Version
from pkm.repositories import file_system_repository as fsr
from pkm.repositories import pypi_repository as pr
from pkm.repositories import simple_repository as sr
from pkm.utils.http.http_client import HttpException

from props import _world
from sx.session import Case

PROPERTY = 'Q02'
ASSUMPTIONS = ['the http client is a stand-in that gives the symbolic page (H01 decides the real one)', 'html is well formed']


class Env(_world.Env):
    interpreter_version = StandardVersion((3, 5, 1))
    markers_hash = 'here'

    def compatibility_tag_score(self, tag):
        return {'py3-none-any': 1, 'cp39-cp39-linux_x86_64': 5}.get(str(tag))


ENV = Env()


class Resource:
    def __init__(self, page=None, json=None, hashes=None, path=None):
        self.page, self.json, self.hashes, self.path, self.checked = page, json, hashes, path, []
        self.data = self if path is None else path

    def read_text(self, *a, **k):
        return self.page

    def read_data_as_json(self):
        return self.json

    def is_hash_valid(self, function, value):
        self.checked.append((function, value))
        return self.hashes(function, value)


class Response:
    def __init__(self, status):
        self.status = status


class Http:
    def __init__(self, answer):
        self.answer, self.asked = answer, []

    def fetch_resource(self, url, cache=None, resource_name=None):
        self.asked.append((url, type(cache).__name__ if cache is not None else None))
        got = self.answer(url)
        if isinstance(got, int):
            raise HttpException(f'status {got}', Response(got))
        if isinstance(got, Exception):
            raise got
        return got


def setup(S, answer):
    S.patch(sp, 'print', lambda *a, **k: None)
    http = Http(answer)
    S.patch(pkm, 'httpclient', http)
    return http


def python_of(S, name):
    how = S.pick(name, [None, '>=', '!!'])
    if how == '>=':
        how = '>=3.' + S.str(f'{name} bound', '0123456789', 1, 1)
    return how
HREFS = [('{f}', 'https://x.org/root/my-pkg/{f}'), ('../../files/{f}', 'https://x.org/files/{f}'), ('/files/{f}', 'https://x.org/files/{f}'),
         ('http://files.org/a%20b/{f}', 'http://files.org/a%20b/{f}'), ('//cdn.org/{f}', 'https://cdn.org/{f}'),
         ('https://files.org/{f}?token=1&amp;b=2#sha256=ab', 'https://files.org/{f}?token=1&b=2#sha256=ab'),
         ('httpd/{f}#md5=cd', 'https://x.org/root/my-pkg/httpd/{f}#md5=cd')]
TAILS = ['-py3-none-any.whl', '-cp39-cp39-linux_x86_64.whl', '-cp27-none-win32.whl', '.tar.gz', '.zip', '-py2.7.egg', '.tar.gz.asc']
USABLE = TAILS[:5]


def python_ok(p):
    return p is None or p[4] <= '5'


def expected(rows, spec_ok=lambda v: True, spec_pre=False):
    """rows (version text, tail, python, yanked, url) -> what has to be offered: (version, ((file tail, url)...))"""
    by = {}
    for v, tail, python, yanked, url in rows:
        if tail in USABLE and not yanked and python != '!!':
            by.setdefault(Version.parse(v), []).append((tail, url, python))
    out = []
    for v, files in by.items():
        fits = any(t != '-cp27-none-win32.whl' and python_ok(p) for t, _, p in files)
        if fits and spec_ok(v):
            out.append((v, sorted((t, u) for t, u, _ in files)))
    final = [o for o in out if not o[0].is_pre_or_dev_release()]
    if final and not spec_pre:
        out = final
    return sorted(out, key=lambda it: it[0], reverse=True)


DEPS = [('my-pkg', lambda v: True, False), ('My_Pkg==1.0', lambda v: v == Version.parse('1'), False), ('my.pkg>=1.1a1', lambda v:
         v >= Version.parse('1.1a1'), True)]


def page(S, n, deep):
    """the links of a page: one in any form, or several in one form"""
    one = n == 1
    junk = '' if not one else S.pick('junk', ['', '<a href="other">other</a>', '<a>my_pkg-9.tar.gz</a>', '<a href="x">nodash.tar.gz</a>', '<p>my_pkg-9.tar.gz</p>',
                           '<a href="y" data-gpg-sig="false"></a>'])
    one = one and not junk
    rows, html = [], []
    for i in range(n):
        # links after the first one vary in fewer respects
        name = S.pick(f'name{i}', ['my_pkg', 'My-Pkg'] if one else ['my_pkg'])
        v = S.pick(f'version{i}', ['1.0', '1.1a1'] if one else ['1.0', '1.1a1', '1.1'] if i == 0 else ['1.0.0', '1.1', '0.9'] if deep else ['1.0.0', '1.1'])
        tail = S.pick(f'tail{i}', TAILS if one or deep else [*TAILS[:4], TAILS[5]] if i == 0 else [TAILS[1], TAILS[2], TAILS[3]])
        if tail.endswith('.whl') and name == 'My-Pkg':
            name = 'My.Pkg'
        f = f'{name}-{v}{tail}'
        href, url = S.pick(f'href{i}', HREFS if one else HREFS[i:i + 1])
        yanked = S.pick(f'yanked{i}', ['', ' data-yanked', ' data-yanked=""', ' data-yanked="bad"'] if one else ['', ' data-yanked'])
        python = S.pick(f'python{i}', [None, '>=3.5', '>=3.6', '!!'] if i == 0 else [None, '>=3.6'])
        attr = '' if python is None else f' data-requires-python="{python.replace(">", "&gt;")}"'
        text = S.pick(f'text{i}', [f, f' {f}\n']) if one else f
        shape = S.pick(f'shape{i}', ['<a href="{h}"{a}>{t}</a><br/>\n', '<li><A{a} HREF="{h}">{t}</A> - text</li>']) if one else '<a href="{h}"{a}>{t}</a>'
        html.append(shape.format(h=href.format(f=f), a=attr + yanked, t=text))
        rows.append((v, tail, python, bool(yanked), url.format(f=f)))
    text = '<!DOCTYPE html><html><head><title>Links for my_pkg</title></head><body><h1>Links for my_pkg</h1>' + junk + ''.join(html) + '</body></html>'
    http = setup(S, lambda url: Resource(page=text))
    repo = sr.SimpleRepositoryBuilder().build('idx', 'https://x.org/root' + (S.pick('end of the url', ['', '/']) if one else '/'))
    dep, ok, pre = S.pick('asked', DEPS[:1] if one else DEPS)
    got = repo.match(Dependency.parse(dep), ENV)
    want = expected(rows, ok, pre)
    seen = [(p.version, sorted((next(t for t in TAILS if a.file_name.endswith(t)), a.other_info['url']) for a in p._artifacts)) for p in got]
    inf = lambda: [text, dep, [(str(v), f) for v, f in seen], [(str(v), f) for v, f in want]]
    S.trace(seen)
    S.check(http.asked == [('https://x.org/root/my-pkg/', '_AskUpdate')], 'the page asked for is another one, or a cached one', info=lambda: http.asked)
    S.check([v for v, _ in seen] == [v for v, _ in want], 'other versions are offered', info=inf)
    S.check(seen == want, 'other files are offered', info=inf)
    S.check(all(p.name_key == 'my_pkg' for p in got), 'the packages are others', info=inf)
    S.reach('offered' if want else 'nothing')


def asked(S, n):
    """several questions, answered by pages, by 404 or by failures; each repository may know one more spelling"""
    index = {'my-pkg': S.pick('page my-pkg', ['1.0', '2.0', 404, 410, 500, 'broken']), 'other': '3.0'}
    times = {}

    def answer(url):
        name = url.rstrip('/').rsplit('/', 1)[-1]
        times[url] = times.get(url, 0) + 1
        what = index.get(name, 404)
        if what == 'broken':
            return HttpException('connection failed')
        return what if isinstance(what, int) else Resource(page=f'<a href="{name}-{what}.tar.gz">{name}-{what}.tar.gz</a>')

    http = setup(S, answer)
    repo = sr.SimpleRepositoryBuilder().build('idx', 'https://x.org/root')
    for i in range(n):
        name = S.pick(f'name{i}', ['my-pkg', 'My_Pkg', 'other', 'nosuch'])
        spec = S.pick(f'spec{i}', ['', '>=2'])
        key = name.lower().replace('_', '-')
        what = index.get(key, 404)
        try:
            got = [str(p.version) for p in repo.match(Dependency.parse(name + spec), ENV)]
        except HttpException:
            got = 'error'
        except InstallationException:
            got = 'error'
        if what in (500, 'broken'):
            want = 'error'
        elif what in (404, 410):
            want = []
        else:
            want = [what] if not spec or what >= '2' else []
        S.trace(got)
        S.check(got == want, 'the answer is not what the index has', info=lambda: [name, spec, what, got, want])
        S.reach('error' if want == 'error' else 'known' if want else 'none')


class Releases:
    """a mapping with symbolic keys"""

    def __init__(self, items):
        self._items = items

    def items(self):
        return self._items


def release(S, i, alone, deep):
    v = S.pick(f'version{i}', ['1.1', '1.1a1', '2013-x'] if i == 0 or deep else ['1.0.1', '1.0'])
    files, rows = [], []
    for j in range(S.pick(f'files{i}', [0, 1, 2]) if alone else 1):
        tail = S.pick(f'tail{i}.{j}', ['-py3-none-any.whl', '.tar.gz', '-py2.7.egg', None] if alone and j == 0 else ['-py3-none-any.whl', '-cp27-none-win32.whl'] if j == 0 else ['-cp39-cp39-linux_x86_64.whl', '-cp27-none-win32.whl'])
        yanked = S.pick(f'yanked{i}.{j}', ['absent', False, True] if i == 0 else [False, True]) if j == 0 else False
        python = S.pick(f'python{i}.{j}', [None, '']) if j or i else python_of(S, f'python{i}.{j}')
        f = f'my_pkg-{v}{tail}' if tail else None
        files.append({'filename': f, 'url': f'https://f/{i}{j}', 'requires_python': python,
                      'packagetype': {'-py2.7.egg': 'bdist_egg', '.tar.gz': 'sdist'}.get(tail, 'bdist_wheel'),
                      **({} if yanked == 'absent' else {'yanked': yanked})})
        rows.append((v, tail, python or None, yanked is True, f'https://f/{i}{j}'))
    return (v, files), rows


def pypi(S, n, deep):
    rel, rows = [], []
    for i in range(n):
        r, x = release(S, i, n == 1, deep)
        S.assume(r[0] not in [q[0] for q in rel])
        rel.append(r)
        rows += x
    info = {'name': 'My.Pkg', 'version': '1.1', 'summary': 'text', 'requires_dist': S.pick('requires', [None, ['of-latest']]), 'author_email': None}
    http = setup(S, lambda url: Resource(json={'info': info, 'releases': Releases(rel)}))
    repo = pr.PypiRepositoryBuilder().build('idx', 'https://x.org/pypi/')
    dep, ok, pre = S.pick('asked', DEPS)
    got = repo.match(Dependency.parse(dep), ENV)
    want = expected(rows, ok, pre)
    seen = [(p.version, sorted((next(t for t in TAILS if a.file_name.endswith(t)), a.other_info['url']) for a in p._artifacts)) for p in got]
    inf = lambda: [rel, dep, [(str(v), f) for v, f in seen], [(str(v), f) for v, f in want]]
    S.trace(seen)
    S.check(len(http.asked) == 1 and http.asked[0][0].lower().replace('_', '-').replace('.', '-') == 'https://x-org/pypi/my-pkg/json',
            'the page asked for is another one', info=lambda: http.asked)
    S.check(http.asked[0][1] == '_AskUpdate', 'new releases are not seen', info=lambda: http.asked)
    S.check([v for v, _ in seen] == [v for v, _ in want], 'other versions are offered', info=inf)
    S.check(seen == want, 'other files are offered', info=inf)
    for p in got:
        m = p.published_metadata
        S.check(m['Name'] == 'My.Pkg' and str(m['Version']) == str(p.version) if 'getitem' in dir(m) else
                (str(m.package_name), str(m.package_version), m.__dict__.get('other', {})) is not None and
                (m.package_name, str(m.package_version)) == ('My.Pkg', str(p.version)), 'the metadata of a version is that of another one',
                info=lambda: [str(p.version), vars(m)])
    S.reach('offered' if want else 'nothing')


def requires(S):
    """the requirements of a version of PyPI; failures of the index"""
    own = S.pick('requires', [['a>=1', 'b; os_name == "nt"', 'c; extra == "x"', 'd[e]; extra == "y" and os_name == "posix"'], [], None, 404, 'broken'])
    status = S.pick('status', [200, 404, 410, 500, 'broken'])

    def answer(url):
        if url.endswith('my-pkg/json'):
            if status == 'broken':
                return HttpException('connection failed')
            return status if status != 200 else Resource(json={'info': {'name': 'my-pkg', 'requires_dist': ['of-latest']}, 'releases': {
                v: [{'filename': f'my_pkg-{v}-py3-none-any.whl', 'packagetype': 'bdist_wheel', 'url': 'u'}] for v in ('1.0', '2.0')}})
        if own == 'broken':
            return HttpException('connection failed')
        return own if isinstance(own, int) else Resource(json={'info': {'requires_dist': own}})

    http = setup(S, answer)
    S.patch(sp.AbstractPackage, '_unfiltered_dependencies', lambda self, env: [Dependency.parse('from-file')])
    repo = pr.PypiRepositoryBuilder().build('idx', 'https://x.org/pypi')
    try:
        got = repo.match(Dependency.parse('my-pkg==1.0'), ENV)
    except (HttpException, InstallationException):
        got = 'error'
    want = {200: ['1.0'], 404: [], 410: []}.get(status, 'error')
    S.check((got if got == 'error' else [str(p.version) for p in got]) == want, 'the answer is not what the index has', info=lambda: [status, got])
    S.trace(want)
    S.reach('error' if want == 'error' else 'none' if not want else 'known')
    if want == ['1.0']:
        target = type('T', (), {'env': ENV})()
        extras = S.pick('extras', [None, [], ['x'], ['x', 'y'], ['z']])
        try:
            deps = sorted(d.package_name for d in got[0].dependencies(target, extras))
        except (HttpException, InstallationException):
            deps = 'error'
        S.check(http.asked[-1][0].endswith('/my-pkg/1.0/json'), 'the requirements are those of another version', info=lambda: http.asked)
        ex = {e.lower() for e in extras or ()}
        exp = 'error' if own in (404, 'broken') else ['from-file'] if own is None else \
            sorted(({'a'} if own else set()) | ({'c'} if own and 'x' in ex else set()) | ({'d'} if own and 'y' in ex else set()))
        S.trace(deps)
        S.check(deps == exp, 'the requirements are others', info=lambda: [own, extras, deps, exp])


def digests(S, kind):
    """a file whose digest is not the announced one is never used"""
    checked, digest = [], S.pick('announced', [{'sha256': 'aa', 'md5': 'bb'}, {'md5': 'bb'}, {}] if kind == 'pypi' else [{'sha256': 'aa'}, {'md5': 'bb'}, {}])
    truth = {f: S.flag(f'{f} is right') for f in digest}
    res = Resource(path=Path('/nowhere/file'), hashes=lambda f, v: bool(truth[f]) if digest.get(f) == v else False)

    def answer(url):
        if url.endswith('/json'):
            return Resource(json={'info': {}, 'releases': {'1.0': [{'filename': 'my_pkg-1.0-py3-none-any.whl', 'packagetype': 'bdist_wheel', 'url': 'https://f/x',
                                                                  **({'digests': digest} if digest or S.flag('given') else {})}]}})
        if url.endswith('/my-pkg/'):
            frag = ''.join(f'#{k}={v}' for k, v in digest.items())
            return Resource(page=f'<a href="https://f/x{frag}">my_pkg-1.0-py3-none-any.whl</a>')
        return res if S.pick('file', [200, 404]) == 200 else 404

    http = setup(S, answer)
    repo = pr.PypiRepositoryBuilder().build('idx', 'https://x.org/pypi') if kind == 'pypi' else sr.SimpleRepositoryBuilder().build('idx', 'https://x.org/root')
    p, = repo.match('my-pkg', ENV)
    log = []
    S.patch(sp.WheelDistribution, 'install_to', lambda self, *a, **k: log.append(1))
    S.patch(sp.WheelDistribution, '__init__', lambda self, d, path: None)
    try:
        p.install_to(type('T', (), {'env': ENV})())
        ok = True
    except (InstallationException, HttpException):
        ok = False
    S.check(http.asked[-1][0].split('#')[0] == 'https://f/x', 'another file is retrieved', info=lambda: http.asked)
    S.check(bool(log) == ok, 'installed without result')
    S.trace(ok)
    if ok:
        strongest = 'sha256' if 'sha256' in digest else 'md5' if digest else None
        S.check(strongest is None or truth[strongest], 'a file is used although its digest is not the announced one', info=lambda: [digest, res.checked])
        S.reach('used')
    else:
        S.check(S.any([S.not_(t) for t in truth.values()]) if http.answer is None else True, '')
        S.reach('refused')
        missing = not any(f.startswith('https://f/x') for f, _ in http.asked)
        S.check(S.any([missing, *[S.not_(t) for t in truth.values()], not res.checked]), 'a good file is refused', info=lambda: [digest, res.checked])
    if not digest and ok is False:
        S.check(not res.checked, 'a file without announced digest is refused')


def directory(S, n, deep):
    """a directory of archives and projects"""
    root = S.scratch() / 'my-dir'
    root.mkdir()
    want = {}
    add = lambda key, v: want.setdefault(key, []).append(v)
    for i in range(n):
        what = S.pick(f'entry{i}', ['my_pkg-1.0-py3-none-any.whl', 'My-Pkg-2.0.tar.gz', 'my.pkg-2.0a1.tar.gz', 'bare.tar.gz', 'notes-1.txt', 'folder-1.0.tar.gz/', 'my_pkg-0.5-cp27-none-win32.whl'])
        S.assume(not (root / what).exists())
        if what.endswith('/'):
            (root / what).mkdir()
            continue
        (root / what).write_bytes(b'')
        if what.endswith('.whl') and 'cp27' not in what or what.endswith('.tar.gz') and '-' in what:
            add('my_pkg', {'m': '1.0', 'M': '2.0'}[what[0]] if 'a1' not in what else '2.0a1')
    project = S.pick('project', ['none', 'project', 'group', 'project without a name', 'setup.py'])
    body = lambda name, v: f'[project]\nname = "{name}"\nversion = "{v}"\n[build-system]\nrequires = []\nbuild-backend = "x"\n'
    if project == 'project':
        (root / 'pyproject.toml').write_text(body('My.Pkg', '3.0'))
        add('my_pkg', '3.0')
    elif project == 'project without a name':
        (root / 'pyproject.toml').write_text('[build-system]\nrequires = []\nbuild-backend = "x"\n')
        add('my_dir', 'unknown_version')
    elif project == 'setup.py':
        (root / 'setup.py').write_text('')
        add('my_dir', 'unknown_version')
    elif project == 'group':
        (root / 'pyproject-group.toml').write_text('children = ["one", "sub"]\n')
        for d, v in (('one', '3.0'), ('sub/two', '4.0')):
            (root / d).mkdir(parents=True)
            (root / d / 'pyproject.toml').write_text(body('my-pkg', v))
            add('my_pkg', v)
        (root / 'sub/pyproject-group.toml').write_text('children = ["two"]\n')
    asked, ok, pre = S.pick('asked', [('my-pkg', lambda v: True, False), ('MY.pkg>=2', lambda v: v >= Version.parse('2'), False), ('my-dir', lambda v: True, False),
                                      ('folder', lambda v: True, False), ('bare', lambda v: True, False), ('my-pkg>=2.0a1', lambda v: v >= Version.parse('2.0a1'), True)])
    repo = fsr.FileSystemRepositoryBuilder().build('dir', str(root))
    S.patch(fsr.Project, 'is_compatible_with', lambda self, env: True)
    got = [str(p.version) for p in repo.match(asked, ENV)]
    key = Dependency.parse(asked).package_name_key
    vs = sorted((Version.parse(v) for v in want.get(key, []) if ok(Version.parse(v))), reverse=True)
    if [v for v in vs if not v.is_pre_or_dev_release()] and not pre:
        vs = [v for v in vs if not v.is_pre_or_dev_release()]
    inf = lambda: [sorted(str(p.relative_to(root)) for p in root.rglob('*')), asked, got, [str(v) for v in vs]]
    S.trace(got)
    S.check(got == [str(v) for v in vs], 'other packages are offered', info=inf)
    S.reach('offered' if vs else 'nothing')


def cases(tier):
    deep = tier == 'thorough'
    T = 1500 if deep else 300
    return [Case('page 1', page, dict(n=1, deep=deep), 'pages with a link of any form, name and attributes', reach=('offered', 'nothing'), timeout=T, weight=7),
            Case('page 2', page, dict(n=2, deep=deep), 'pages with two links to any files', reach=('offered', 'nothing'), timeout=T, weight=8),
            *([Case('page 3', page, dict(n=3, deep=False), 'pages with three links', reach=('offered', 'nothing'), timeout=T, weight=9, best_effort=True)] if deep else []),
            Case('asked', asked, dict(n=3 if deep else 2), 'sequences of questions to an index', reach=('error', 'known', 'none'), timeout=T, weight=3),
            Case('pypi 1', pypi, dict(n=1, deep=deep), 'answers with a release of up to two files', reach=('offered', 'nothing'), timeout=T, weight=7),
            Case('pypi 2', pypi, dict(n=2, deep=deep), 'answers with two releases of a file', reach=('offered', 'nothing'), timeout=T, weight=8),
            *([Case('pypi 3', pypi, dict(n=3, deep=False), 'answers with three releases', reach=('offered', 'nothing'), timeout=T, weight=9, best_effort=True)] if deep else []),
            Case('requires', requires, {}, 'requirements of a version and failures of the index', reach=('error', 'known', 'none'), timeout=T),
            Case('digests pypi', digests, dict(kind='pypi'), 'any announced and actual digests', reach=('used', 'refused'), timeout=T),
            Case('digests simple', digests, dict(kind='simple'), 'any announced and actual digests', reach=('used', 'refused'), timeout=T),
            Case('directory', directory, dict(n=3 if deep else 2, deep=deep), 'directories with that many archives of any kind, projects and groups',
                 reach=('offered', 'nothing'), timeout=T, sandbox=True, weight=5)]
