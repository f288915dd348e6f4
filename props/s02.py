"""S02: source distributions are built as PEP 517 says, and what was built is used for what it was built from."""
import io
import itertools
import os
import shutil
import sys
import tarfile
import types
import zipfile
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.source_distribution import SourceDistribution
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import PackageDescriptor
from pkm.api.projects.project import Project
from pkm.api.versions.version import Version
from pkm.build import external_builders, source_build_cache
from pkm.build.external_builders import BuildError
from pkm.build.source_build_cache import SourceBuildCache
from pkm.utils import files as pkm_files
from pkm.utils.archives import extract_archive

from props._fs import Faults, Fault, snap, put
from sx.session import Case

PROPERTY = 'S02'
ASSUMPTIONS = ['environments are stand-ins that record what is installed in them; scripts for the build backend are run in the process of the check',
               'wheels and metadata are told apart by a text that the builder writes into them']

COUNT = itertools.count()


# ---- environments and backends

class Env:
    def __init__(self, name, log, world=None):
        self.name, self.log, self.world, self.alive = name, log, world, True
        self.interpreter_path = Path(f'/nowhere/{name}/bin/python')
        self.markers_hash = name if world is None else 'm'
        self.markers = {}

    @property
    def installation_target(self):
        return Target(self)

    def install(self, dependencies, repository=None, *a, **k):
        if names := [str(d) for d in dependencies]:
            self.log.append(('install', self.name, names, repository))
        if self.world:
            for d in dependencies:
                self.world.install(self, d.package_name)

    def install_link(self, name, paths, imports=None):
        self.log.append(('link', self.name, [str(p) for p in paths]))

    def run_proc(self, args, cwd=None, **k):
        self.log.append(('run', self.name, args[0], str(cwd)))
        code, back = 0, os.getcwd()

        def ex(c=0):
            raise SystemExit(c)
        try:
            os.chdir(cwd)
            exec(compile(Path(args[1]).read_text(), 'script', 'exec'), {'exit': ex, '__name__': '__main__'})
        except SystemExit as e:
            code = e.code or 0
        finally:
            os.chdir(back)
        return types.SimpleNamespace(returncode=code)


class Target:
    def __init__(self, env):
        self.env = env


def quiet(S):
    import traceback
    S.patch(traceback, 'print_exc', lambda *a, **k: None)
    S.patch(sys, 'stderr', io.StringIO())


def in_scratch(S):
    """temporary directories are made in the scratch directory; what exists of them at the end was left behind"""
    root = S.scratch()
    S.patch(pkm_files, 'mkdtemp', lambda: str(mk(root)))
    return root


def mk(root):
    p = root / f't{next(COUNT)}'
    p.mkdir()
    return p


def metadata(name, mark, version='1'):
    return f'Metadata-Version: 2.1\nName: {name}\nVersion: {version}\nSummary: {mark}\n'


def wheel(path, name, mark, version='1'):
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr(f'{name}-{version}.dist-info/METADATA', metadata(name, mark, version))
        z.writestr(f'{name}.py', mark)


def project_in(path, name, build_system='', version='1'):
    put(path, {'pyproject.toml': f'[project]\nname = "{name}"\nversion = "{version}"\n{build_system}'})
    return Project.load(path)


# ---- the hooks of one build

def hooks(S, kind):
    quiet(S)
    root, log = in_scratch(S), []
    proj = S.scratch() / 'p'
    requires = S.pick('requires', [[], ['setuptools'], ['wheel >=1', 'x']])
    paths = S.flag('backend-path')
    obj = S.pick('object', ['', 'o', 'o.sub'])
    backend = 'sx_backend_main' + (f':{obj}' if obj else '')
    text = f'[build-system]\nrequires = {requires!r}\nbuild-backend = "{backend}"\n'
    if paths:
        text += 'backend-path = ["back", "."]\n'
    project = project_in(proj, 'root', text)
    repository = object()
    S.patch(Project, 'attached_repository', repository)
    given = S.flag('target-env')
    target, attached = Env('target', log), Env('attached', log)
    S.patch(Project, 'attached_environment', attached)
    made = []

    def create(path, interpreter=None):
        log.append(('create', str(interpreter), path.exists()))
        made.append(path)
        path.mkdir(parents=True)
        return Env('build', log)
    S.patch(EnvironmentBuilder, 'create', staticmethod(create))

    first, second = {'sdist': ('get_requires_for_build_sdist', 'build_sdist'), 'wheel': ('get_requires_for_build_wheel', 'build_wheel'),
                     'metadata': ('get_requires_for_build_wheel', 'prepare_metadata_for_build_wheel'),
                     'editable': ('get_requires_for_build_editable', 'build_editable')}[kind]
    out = [S.pick(h, ['works', 'undefined', 'raises', 'exits']) for h in ('first', 'second')]
    extra = S.pick('extra', [[], ['late'], ['late >=2', 'y']]) if out[0] == 'works' else None
    name = {'sdist': 'root-1.tar.gz', 'wheel': 'root-1-py3-none-any.whl', 'editable': 'root-1-py3-none-any.whl', 'metadata': 'root-1.dist-info'}[kind]

    def hook(which, result):
        def f(*a):
            log.append(('hook', (first, second)[which], [None if x is None else str(x) for x in a], os.getcwd()))
            if out[which] == 'raises':
                raise RuntimeError('no')
            if out[which] == 'exits':
                sys.exit(3)
            return result
        return f
    space = types.SimpleNamespace()
    for h, result, which in ((first, extra, 0), (second, name, 1)):
        if out[which] != 'undefined':
            setattr(space, h, hook(which, result))
    module = types.ModuleType('sx_backend_main')
    at = module
    for part in obj.split('.') if obj else ():
        setattr(at, part, types.SimpleNamespace())
        at = getattr(at, part)
    for k, v in vars(space).items():
        setattr(at, k, v)
    sys.modules['sx_backend_main'] = module
    S.on_exit(lambda: sys.modules.pop('sx_backend_main', None))

    default_dir = S.flag('default-directory')
    directory = None if default_dir else S.scratch() / 'out'
    where = proj / 'dist' / '1' if default_dir else directory
    error = result = None
    try:
        if kind == 'sdist':
            result = external_builders.build_sdist(project, directory, target if given else None)
        else:
            result = external_builders.build_wheel(project, directory, only_meta=kind == 'metadata', editable=kind == 'editable',
                                                   target_env=target if given else None)
    except BuildError as e:
        error = e

    tell = lambda: dict(kind=kind, requires=requires, paths=paths, object=obj, outcomes=out, extra=extra, log=[str(x) for x in log], error=repr(error), result=str(result))
    expect = [('create', str((target if given else attached).interpreter_path), False)]
    if requires:
        expect.append(('install', 'build', [str(Dependency.parse(r)) for r in requires], repository))
    if paths:
        expect.append(('link', 'build', [str(proj / 'back'), str(proj)]))
    fails = False
    for which, (h, args) in enumerate(((first, [None]), (second, [str(where)] + [None] * (2 if kind in ('wheel', 'editable') else 1)))):
        expect.append(('run', 'build', str(Path('/nowhere/build/bin/python')), str(proj)))
        if out[which] != 'undefined':
            expect.append(('hook', h, args, str(proj)))
        if out[which] in ('raises', 'exits'):
            fails = True
            break
        if which == 0 and extra:
            expect.append(('install', 'build', [str(Dependency.parse(r)) for r in extra], repository))
    fails = fails or out[1] == 'undefined'
    S.check(log == expect, 'the steps of a build are those of PEP 517, in their order, in an environment of its own', info=lambda: dict(tell(), expected=[str(x) for x in expect]))
    S.check((error is not None) == fails, 'a build fails if and only if a step failed', info=tell)
    if error is not None and out[1] == 'undefined' and 'raises' not in out and 'exits' not in out and kind in ('metadata', 'sdist'):
        S.check(error.missing_hook, 'a hook that is not there is told apart from one that fails', info=tell)
    if error is not None and ('raises' in out[:1] or 'exits' in out[:1] or out[0] == 'works' and out[1] in ('raises', 'exits')):
        S.check(not error.missing_hook, 'a hook that fails is told apart from one that is not there', info=tell)
    if not fails:
        S.check(str(result) == str(where / name), 'the result is the file the backend names', info=tell)
        S.check(where.is_dir(), 'the backend gets a directory that exists')
        S.reach('built')
    else:
        S.reach('failed')
    S.check(not list(root.iterdir()), 'no temporary files are left behind', info=lambda: str(list(root.iterdir())))


# ---- the cache

def archive(path, name, mark):
    data = f'[project]\nname = "{name}"\nversion = "1"\ndescription = "{mark}"\n'.encode()
    with tarfile.open(path, 'w:gz') as t:
        i = tarfile.TarInfo(f'{name}-1/pyproject.toml')
        i.size = len(data)
        t.addfile(i, io.BytesIO(data))
    return path


class Builder:
    """in the place of the build of a project: the result tells what it was built from and for"""

    def __init__(self, S):
        self.S, self.calls, self.outcome, self.n = S, [], 'works', 0

    def __call__(self, project, target_dir=None, only_meta=False, editable=False, target_env=None):
        self.calls.append('metadata' if only_meta else 'wheel')
        assert not editable
        mark = f'{project.config.project.description}{target_env.name}'
        self.attached = project.attached_environment is target_env
        target_dir.mkdir(parents=True, exist_ok=True)
        self.n += 1
        if self.outcome == 'fails' or self.outcome == 'fails late' and self.n > 1:
            (target_dir / 'half').write_text('')
            raise BuildError('no')
        if only_meta:
            if self.outcome == 'no hook':
                raise BuildError('no such hook', True)
            d = target_dir / 'pkg-1.dist-info'
            put(d, {'METADATA': metadata('pkg', mark)} if self.outcome != 'nothing' else {'WHEEL': ''})
            return d
        w = target_dir / 'pkg-1-py3-none-any.whl'
        wheel(w, 'pkg', mark)
        return w


def mark_of(result):
    if isinstance(result, Path):
        with zipfile.ZipFile(result) as z:
            return z.read('pkg.py').decode()
    return result.summary


def history(S, n, faults):
    quiet(S)
    in_scratch(S)
    root = S.scratch()
    cache = SourceBuildCache(root / 'cache')
    builder = Builder(S)
    S.patch(source_build_cache.ext_build, 'build_wheel', builder)
    dists = {m: SourceDistribution(PackageDescriptor(spelled, Version.parse('1')), archive(root / f'{m}.tar.gz', 'pkg', m))
             for m, spelled in (('A', 'pkg'), ('B', 'Pkg'))}
    envs = {e: Env(e, []) for e in ('x', 'y')}
    told, last = [], None
    for i in range(n):
        kind, m, e = S.pick(f'kind{i}', ['metadata', 'wheel']), S.pick(f'dist{i}', ['A', 'B']), S.pick(f'env{i}', ['x', 'y'])
        fault = None
        builder.outcome = S.pick(f'outcome{i}', ['works', 'no hook', 'nothing', 'fails'] if not faults else ['works', 'no hook'])
        if faults and i == 0:
            fault = Faults(S, S.pick('at', list(range(1, 9))), S.flag('half'))
            half = lambda s, t, **k: Path(t).parent.is_dir() and not Path(t).is_dir() and Path(t).write_bytes(Path(s).read_bytes()[:40])
            fault.wrap(shutil, 'copy', half)
            fault.wrap(shutil, 'move', half)
            fault.wrap(Path, 'mkdir')
            fault.wrap(Path, 'replace')
            fault.wrap(Path, 'rename')
            fault.wrap(Path, 'write_text', lambda p, *a, **k: open(p, 'w').write('Metadata-Version: 2'))
        before, builder.n = len(builder.calls), 0
        error = result = None
        try:
            result = (cache.get_or_build_meta(envs[e], dists[m]) if kind == 'metadata' else cache.get_or_build_wheel(Target(envs[e]), dists[m]))
        except (BuildError, Fault) as x:
            error = x
        if fault:
            fault.on = False
            if not fault.failed:
                S.assume(False)
        calls = builder.calls[before:]
        told.append((kind, m, e, builder.outcome, repr(error), calls, fault and fault.failed))
        tell = lambda: told
        if fault and error is not None:
            S.reach('failed')
            last = None
            continue
        again = last in ((kind, m, e), ('wheel', m, e))
        if again:
            S.check(not calls, 'what was just built is not built again', info=tell)
            S.reach('again')
        if error is not None:
            S.check(len(calls) > 0 and (builder.outcome == 'fails' or builder.outcome == 'nothing' and kind == 'metadata'), 'a result is given when the build works', info=tell)
            continue
        if calls:
            want = ['metadata', 'wheel'] if kind == 'metadata' and builder.outcome == 'no hook' else [kind]
            S.check(calls == want and builder.outcome != 'fails' and (builder.outcome != 'nothing' or kind != 'metadata'),
                    'what is needed is built, from the wheel when the backend cannot tell metadata alone', info=tell)
            S.check(builder.attached, 'a package is built for the environment it is needed for', info=tell)
            S.reach('built')
        S.check((kind == 'wheel') == isinstance(result, Path), 'the kind of result is the one that was asked', info=tell)
        S.check(mark_of(result) == m + e, 'a result is used only for the archive and the environment it was built for', info=lambda: (told, mark_of(result)))
        if kind == 'wheel':
            S.check(result.name == 'pkg-1-py3-none-any.whl' and root in result.parents, 'a wheel keeps its name', info=lambda: str(result))
        last = (kind, m, e)


def replaced(S):
    """an archive is replaced by another one of its name and size"""
    quiet(S)
    in_scratch(S)
    root = S.scratch()
    builder = Builder(S)
    S.patch(source_build_cache.ext_build, 'build_wheel', builder)
    env, told = Env('x', []), []
    at = root / 'p.zip'
    for i in range(3):
        m = S.pick(f'archive{i}', ['A', 'B'])
        with zipfile.ZipFile(at, 'w') as z:
            z.writestr(zipfile.ZipInfo('pkg-1/pyproject.toml'), f'[project]\nname = "pkg"\nversion = "1"\ndescription = "{m}"\n')
        os.utime(at, (1, 1))
        dist = SourceDistribution(PackageDescriptor('pkg', Version.parse('1')), at)
        cache = SourceBuildCache(root / 'cache')
        kind = S.pick(f'kind{i}', ['metadata', 'wheel'])
        result = cache.get_or_build_meta(env, dist) if kind == 'metadata' else cache.get_or_build_wheel(Target(env), dist)
        told.append((m, kind, mark_of(result)))
        S.check(mark_of(result) == m + 'x', 'a result is used only for the contents of the archive it was built from', info=lambda: told)
    S.reach('replaced')


# ---- builds that need builds

class World:
    """sdists that need one another to be built; environments install what they are asked by building it"""

    def __init__(self, S, n, edges, meta_hook, root):
        self.S, self.edges, self.meta_hook, self.depth = S, edges, meta_hook, 0
        self.names = 'abc'[:n]
        self.cache = SourceBuildCache(root / 'cache')
        self.dists = {}
        for x in self.names:
            text = f'[project]\nname = "{x}"\nversion = "1"\n[build-system]\nrequires = {[y for y in self.names if edges[x, y]]!r}\nbuild-backend = "sx_backend_{x}"\n'.encode()
            with tarfile.open(root / f'{x}.tar.gz', 'w:gz') as t:
                i = tarfile.TarInfo(f'{x}-1/pyproject.toml')
                i.size = len(text)
                t.addfile(i, io.BytesIO(text))
            self.dists[x] = SourceDistribution(PackageDescriptor(x, Version.parse('1')), root / f'{x}.tar.gz')
            sys.modules[f'sx_backend_{x}'] = self.backend(x)
            S.on_exit(lambda x=x: sys.modules.pop(f'sx_backend_{x}', None))
        self.builds = []

    def backend(self, x):
        m = types.ModuleType(f'sx_backend_{x}')

        def build_wheel(directory, settings=None, md=None):
            self.builds.append(x)
            wheel(Path(directory) / f'{x}-1-py3-none-any.whl', x, x)
            return f'{x}-1-py3-none-any.whl'

        def prepare(directory, settings=None):
            put(Path(directory) / f'{x}-1.dist-info', {'METADATA': metadata(x, x)})
            return f'{x}-1.dist-info'
        m.build_wheel = build_wheel
        if self.meta_hook:
            m.prepare_metadata_for_build_wheel = prepare
        return m

    def install(self, env, name):
        self.depth += 1
        if self.depth > 12:
            raise RecursionError('builds without end')
        try:
            md = self.cache.get_or_build_meta(env, self.dists[name])
            w = self.cache.get_or_build_wheel(Target(env), self.dists[name])
            assert md.package_name == name and w.name.startswith(name), 'wrong result'
        finally:
            self.depth -= 1


def nested(S, n):
    quiet(S)
    in_scratch(S)
    names = 'abc'[:n]
    edges = {(x, y): S.flag(f'{x} needs {y}') if x != y or x == 'a' else False for x in names for y in names}
    world = World(S, n, edges, S.flag('metadata hook'), S.scratch())
    log = []
    S.patch(EnvironmentBuilder, 'create', staticmethod(lambda path, interpreter=None: (path.mkdir(parents=True), Env('build', log, world))[1]))
    S.patch(Project, 'attached_repository', None)
    user = Env('user', log, world)
    error = result = None
    try:
        if S.flag('metadata first'):
            world.cache.get_or_build_meta(user, world.dists['a'])
        result = world.cache.get_or_build_wheel(Target(user), world.dists['a'])
    except BuildError as e:
        error = e

    seen, stack = {}, []

    def cyclic(x):
        if x in stack:
            return True
        stack.append(x)
        r = any([edges[x, y] and cyclic(y) for y in names])
        stack.pop()
        return r
    tell = lambda: dict(edges=[x + '->' + y for (x, y), v in edges.items() if v], error=repr(error), builds=world.builds)
    if cyclic('a'):
        S.check(error is not None and 'cycle' in str(error), 'packages that need themselves to be built are refused', info=tell)
        S.reach('cycle')
    else:
        S.check(error is None, 'a package is built when what its build needs can be built', info=tell)
        S.check(result is not None and result.name == 'a-1-py3-none-any.whl' and result.exists(), 'the result is the wheel of the package')
        reach, todo = set(), ['a']
        while todo:
            x = todo.pop()
            if x not in reach:
                reach.add(x)
                todo += [y for y in names if edges[x, y]]
        S.check(set(world.builds) == reach, 'exactly what is needed is built', info=tell)
        S.reach('built')


# ---- archives

def unpack(S, form, n):
    quiet(S)
    import warnings
    S.patch(warnings, 'warn', lambda *a, **k: None)
    root = S.scratch()
    put(root, {'out': None, 'beside/keep': 'k', 'keep': 'k'})
    name = S.str('name', './ab', 1, n)
    name = S.conc(name)
    S.assume(name.strip('./') != '')
    absolute = name.startswith('/')
    if absolute:
        name = str(root) + name      # an absolute name
    link = S.pick('link', ['', '../beside', '.']) if form == 'tar' else ''
    path = root / ('x.tar.gz' if form == 'tar' else 'x.zip')
    if form == 'tar':
        with tarfile.open(path, 'w:gz') as t:
            if link:
                i = tarfile.TarInfo('b')
                i.type, i.linkname = tarfile.SYMTYPE, link
                t.addfile(i)
            i = tarfile.TarInfo(name)
            i.size = 3
            t.addfile(i, io.BytesIO(b'new'))
    else:
        with zipfile.ZipFile(path, 'w') as z:
            z.writestr(name, 'new')
    before = snap(root)
    error = None
    try:
        extract_archive(path, root / 'out')
    except (tarfile.TarError, OSError, ValueError) as e:
        error = e
    inside = lambda files: {k: v for k, v in files.items() if not k.startswith('out')}
    after = snap(root)
    tell = lambda: dict(name=name, link=link, error=repr(error), after=list(after))
    S.check(inside(after) == inside(before), 'unpacking writes only below the directory it is asked to', info=tell)
    parts = [p for p in name.split('/') if p != '.']
    if not absolute and not link and '..' not in parts and '' not in parts and not name.endswith('.'):
        p = root / 'out' / name
        S.check(error is None and p.is_file() and p.read_bytes() == b'new', 'the files of an archive are unpacked', info=tell)
        S.reach('unpacked')
    else:
        S.reach('odd')


def cases(tier):
    deep = tier == 'thorough'
    out = [Case(f'hooks[{k}]', hooks, dict(kind=k), 'every outcome of both hooks, three lists of requirements of both kinds, backend paths, backend objects', ['built', 'failed'])
           for k in ('sdist', 'wheel', 'metadata', 'editable')]
    n = 3 if deep else 2
    out.append(Case('history', history, dict(n=n, faults=False), f'{n} requests: metadata or wheel, of two archives, for two environments, four outcomes of the build',
                    ['built', 'again']))
    out.append(Case('replaced', replaced, {}, 'three requests for an archive whose contents are replaced in between, keeping its name, size and time', ['replaced']))
    out.append(Case('faults', history, dict(n=2 if not deep else 3, faults=True), 'one file operation of the first request fails, before or half way, any requests after it', ['built', 'failed']))
    out.append(Case('nested', nested, dict(n=3), 'three source distributions, any build requirements between them, with and without metadata hook', ['built', 'cycle']))
    out += [Case(f'unpack[{f}]', unpack, dict(form=f, n=5 if deep else 4), f'names of up to {5 if deep else 4} characters of ./ab' + (', with a link' if f == 'tar' else ''),
                 ['unpacked', 'odd'], sandbox=True) for f in ('tar', 'zip')]
    return out
