"""S01: packages shared between the environments of a zoo behave as if each environment had its own copy."""
import compileall
import io
import os
import shutil
import sys
import types
import warnings
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distinfo import DistInfo
from pkm.api.distributions.pth_link import PthLink
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder, PyVEnvConfiguration
from pkm.api.environments import environment_builder
from pkm.api.environments.environments_zoo import EnvironmentsZoo, EnvironmentZooConfiguration
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.packages.package_installation import PackageInstallationTarget
from pkm.api.packages.package_installation_info import PackageInstallationInfo, StoreMode
from pkm.api.packages.site_packages import SitePackages
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.repositories.repository_management import ZooRepositoryManagement
from pkm.api.versions.version import StandardVersion, Version
from pkm.repositories import shared_pacakges_repo
from pkm.repositories.shared_pacakges_repo import SharedPackagesRepository
from pkm.utils import files as pkm_files
from pkm.utils.commons import NoSuchElementException

from props._fs import Fault, Faults, snap, put
from props._wheel import record_of, write_wheel
from sx.session import Case

PROPERTY = 'S01'
ASSUMPTIONS = ['environments are directories with the layout of posix environments; their interpreters are not run',
               'python reads path files of the site as its documentation says']

NAME, DIST = 'My-Pkg', 'My_Pkg-1.0'
INFO = f'{DIST}.dist-info'


class Env:
    """an environment of the zoo"""

    class operating_platform:
        @staticmethod
        def has_windows_os():
            return False

    def __init__(self, path, tag):
        self.path, self.tag = path, tag
        self.interpreter_path = path / 'bin/python'
        self.interpreter_version = StandardVersion((3, 9, 1))
        self.markers, self.markers_hash = {'python_version': '3.9'}, 'm'
        put(path, {'lib/site': None, 'lib64/site': None, 'bin/python': 'py', 'pyvenv.cfg': ''})
        self.before = tree(path)

    def compatibility_tag_score(self, tag):
        return {'py3-none-any': 1, self.tag: 2}.get(tag)

    @property
    def site_packages(self):
        return SitePackages(self, self.path / 'lib/site', self.path / 'lib64/site')

    @property
    def installation_target(self):
        p = self.path
        return PackageInstallationTarget(self, **{
            'stdlib': f'{p}/lib/py', 'platstdlib': f'{p}/lib/py', 'platinclude': f'{p}/inc', 'include': f'{p}/inc',
            'purelib': f'{p}/lib/site', 'platlib': f'{p}/lib64/site', 'data': str(p), 'scripts': f'{p}/bin'})


def tree(root):
    return {k: v for k, v in snap(root).items() if v is not None and '__pycache__' not in k}


class Wheel:
    """the wheel of a package for a tag, and what it brings"""

    def __init__(self, root, form, tag, name=NAME, version='1.0', requires=''):
        self.form, self.tag = form, tag
        self.pure = form != 'plat'
        code = {'mypkg/__init__.py': f'tag = "{tag}"\n', 'mypkg/sub/data.txt': 'd', 'single.py': 'x = 1\n'}
        self.code, self.scripts, self.raw, self.data = code, [], {}, {}
        more = dict(code)
        points = ''
        if form in ('scripts', 'plat'):
            self.scripts = ['tool']
            points = '[console_scripts]\ntool = mypkg:main\n'
            self.raw = {'raw': '#!python\nprint(1)\n', 'sh': '#!/bin/sh\necho\n'}
            for k, v in self.raw.items():
                more[f'{DIST}.data/scripts/{k}'] = v
        if form == 'data':
            self.data = {'share/doc.txt': 'doc'}
            more[f'{DIST}.data/data/share/doc.txt'] = 'doc'
        if form == 'path':
            code['hook.pth'] = 'import mypkg\n'
            more['hook.pth'] = code['hook.pth']
        if form == 'mixed':
            more[f'{DIST}.data/platlib/native.so'] = 'so'
            self.data = {'lib64/site/native.so': 'so'}
        files = {f'{INFO}/METADATA': f'Metadata-Version: 2.1\nName: My-Pkg\nVersion: 1.0\n{requires}',
                 f'{INFO}/WHEEL': f'Wheel-Version: 1.0\nGenerator: x\nRoot-Is-Purelib: {"true" if self.pure else "false"}\nTag: {tag}\n'}
        if points:
            files[f'{INFO}/entry_points.txt'] = points
        files.update(more)
        files = {k: v.encode() for k, v in files.items()}
        self.path = root / f'{DIST}-{tag}.whl'
        write_wheel(self.path, files, record_of(files))


class Base(Package):
    """the package as its own repository has it"""

    def __init__(self, wheel_for, editable=False, requires=(), name=NAME):
        self.wheel_for, self.requires, self.installs, self._d = wheel_for, requires, 0, PackageDescriptor(name, StandardVersion((1, 0)))

    @property
    def descriptor(self):
        return self._d

    def dependencies(self, target, extras=None):
        return [d for d in map(Dependency.parse, self.requires) if d.is_applicable_for(target.env, extras)]

    def is_compatible_with(self, env):
        return True

    def install_to(self, target, user_request=None, store_mode=StoreMode.AUTO):
        self.installs += 1
        mode = PackageInstallationInfo(store_mode=StoreMode.EDITABLE if store_mode == StoreMode.EDITABLE else StoreMode.COPY)
        WheelDistribution(self._d, self.wheel_for(target.env).path).install_to(target, user_request, mode)


class BaseRepo(AbstractRepository):
    def __init__(self, packages):
        super().__init__('base')
        self.packages = packages

    def _do_match(self, dependency, env):
        return [p for p in self.packages if p.name_key == dependency.package_name_key]


def quiet(S):
    import traceback
    S.patch(traceback, 'print_exc', lambda *a, **k: None)
    S.patch(warnings, 'warn', lambda *a, **k: None)
    S.patch(sys, 'stderr', io.StringIO())
    S.patch(compileall, 'compile_file', lambda *a, **k: True)
    root = S.scratch()
    n = [0]

    def mk():
        n[0] += 1
        p = root / f't{n[0]}'
        p.mkdir()
        return str(p)
    S.patch(pkm_files, 'mkdtemp', mk)


def seen(env):
    """what python finds: the files of the sites, and of the directories the sites lead to"""
    out = {}
    for site in (env.path / 'lib/site', env.path / 'lib64/site'):
        roots = [site]
        for pth in sorted(site.glob('*.pth')):
            for line in pth.read_text().splitlines():
                if line.strip() and not line.startswith('#') and not line.startswith('import'):
                    roots.append(Path(line.strip()))
        for r in roots:
            for k, v in tree(r).items():
                if not k.endswith('.pyc') and '.dist-info/' not in k:
                    if k.endswith('.pth') and r is not site:
                        continue        # not a site: path files there are not read
                    out.setdefault(k, v)
    return out


def verify(S, env, wheel, requested, tell):
    """the environment is as if it had installed the wheel, or nothing"""
    if wheel is None:
        now = tree(env.path)
        S.check(now == env.before, 'nothing of a package is left in an environment that does not have it', info=lambda: (tell(), sorted(set(now) ^ set(env.before))))
        return
    found = seen(env)
    if env.tag != 'py3-none-any' and found.get('mypkg/__init__.py') == b'tag = "py3-none-any"\n':
        wheel = Wheel(env.path.parent.parent, wheel.form, 'py3-none-any')       # it runs there too
    for k, v in wheel.code.items():
        S.check(found.get(k) == v.encode(), 'modules and their files are found by the python of each environment', info=lambda: (tell(), k, sorted(found)))
    for k, v in wheel.data.items():
        p = env.path / k
        S.check(p.is_file() and p.read_bytes() == v.encode(), 'files outside of the site are where the package puts them', info=lambda: (tell(), k, sorted(tree(env.path))))
    for s in wheel.scripts:
        p = env.path / 'bin' / s
        S.check(p.is_file() and str(env.interpreter_path) in p.read_text() and os.access(p, os.X_OK), 'scripts run with the python of their environment',
                info=lambda: (tell(), s, p.read_text() if p.exists() else None))
    for s, text in wheel.raw.items():
        p = env.path / 'bin' / s
        want = text.replace('#!python\n', f'#!{env.interpreter_path}\n')
        S.check(p.is_file() and p.read_text() == want and os.access(p, os.X_OK), 'scripts run with the python of their environment',
                info=lambda: (tell(), s, p.read_text() if p.exists() else None))
    installed = [p for p in env.site_packages.installed_packages() if p.name_key == 'my_pkg']
    S.check(len(installed) == 1, 'the environment tells that it has the package, once', info=tell)
    info = installed[0].dist_info
    S.check(info.is_user_requested() == requested, 'a package is requested where its user requested it', info=tell)
    S.check(info.load_metadata_cfg().package_name == 'My-Pkg' and str(info.load_metadata_cfg().package_version) == '1.0', 'the metadata is that of the package')
    files = list(info.installed_files())
    S.check(all(f.exists() for f in files), 'what is recorded is there', info=lambda: (tell(), [str(f) for f in files if not f.exists()]))
    S.check(all(env.path in f.parents for f in files), 'only files of the environment are recorded in it', info=lambda: (tell(), [str(f) for f in files]))


def zoo(S, n, steps, faults, forms, tagged):
    quiet(S)
    root = S.scratch()
    form = S.pick('form', forms)
    tags = [S.pick(f'tag{i}', tagged) for i in range(n)]
    wheels = {t: Wheel(root, form, t) for t in set(tags)}
    envs = [Env(root / 'zoo' / f'e{i}', tags[i]) for i in range(n)]
    base = Base(lambda env: wheels[env.tag])
    work = root / 'zoo/.zoo/shared'
    repo = SharedPackagesRepository(work, BaseRepo([base]))
    have, asked, told = [None] * n, [False] * n, []
    tell = lambda: (form, tags, told)
    for i in range(steps):
        op = S.pick(f'op{i}', ['install', 'request', 'remove', 'collect'] + ([] if faults else ['edit'])) if i or not faults else S.pick(f'op{i}', ['install', 'request'])
        k = S.pick(f'env{i}', list(range(n))) if op != 'collect' else 0
        S.assume(op == 'collect' or (have[k] is None) == (op != 'remove'))
        env, fault = envs[k], None
        told.append((op, k))
        if faults and i == faults - 1:
            fault = Faults(S, S.pick('at', list(range(1, 37))), S.flag('half'))
            fault.install()
            fault.wrap(shutil, 'copytree')
            fault.wrap(Path, 'rename')
            fault.wrap(Path, 'write_bytes')
        try:
            if op in ('install', 'request', 'edit'):
                [p] = repo.match(Dependency.parse('my_pkg'), env)
                p.install_to(env.installation_target, Dependency.parse('My-Pkg') if op == 'request' else None,
                             StoreMode.EDITABLE if op == 'edit' else StoreMode.AUTO)
                have[k], asked[k] = wheels[tags[k]], op == 'request'
                if op != 'edit' and form in ('pure', 'scripts', 'plat'):
                    S.reach('shared')
            elif op == 'remove':
                env.site_packages.installed_package('my-pkg').uninstall()
                have[k], asked[k] = None, False
                S.reach('removed')
            else:
                repo.remove_unused_packages(iter(envs))
                used = [p for e in envs for f in e.path.rglob('SHARED') for p in [Path(f.read_text())]]
                left = {str(p) for p in work.rglob('*')} if work.exists() else set()
                S.check(all(any(Path(x) == u or u in Path(x).parents or Path(x) in u.parents for u in used) for x in left), 'what no environment uses is collected',
                        info=lambda: (tell(), sorted(left)))
                S.reach('collected')
        except Fault:
            told[-1] += (fault.failed,)
            S.reach('failed')
            fault.on = False
            for x in range(n):
                if x != k:
                    verify(S, envs[x], have[x], asked[x], tell)
            # again, without the failure
            if have[k] is None and (old := env.site_packages.installed_package('my-pkg')):
                old.uninstall()
            if op in ('install', 'request'):
                [p] = repo.match(Dependency.parse('my_pkg'), env)
                p.install_to(env.installation_target, Dependency.parse('My-Pkg') if op == 'request' else None)
                have[k], asked[k] = wheels[tags[k]], op == 'request'
            elif op == 'remove' and env.site_packages.installed_package('my-pkg'):
                env.site_packages.installed_package('my-pkg').uninstall()
                have[k], asked[k] = None, False
            else:
                S.assume(op == 'collect')
        if fault:
            fault.on = False
            if not fault.failed:
                S.assume(False)
        for x in range(n):
            verify(S, envs[x], have[x], asked[x], tell)
    shared = sum(1 for e in envs for _ in e.path.rglob('SHARED'))
    S.check(not (form in ('data', 'path', 'mixed') and shared), 'packages that cannot be shared are not', info=tell)


def collected(S):
    """several builds of versions of a package are shared, and some are not used any more"""
    quiet(S)
    root = S.scratch()
    tags = ['py3-none-any', 'cp39-cp39-linux_x86_64']
    wheels = {t: Wheel(root, 'pure', t) for t in tags}
    envs = [Env(root / 'zoo' / f'e{i}', tags[i % 2]) for i in range(3)]
    work = root / 'zoo/.zoo/shared'
    repo = SharedPackagesRepository(work, BaseRepo([Base(lambda env: wheels[env.tag])]))
    first = S.pick('first', [0, 1])
    order = [first, 1 - first] + ([2] if S.flag('third') else [])
    for k in order:
        [p] = repo.match(Dependency.parse('my_pkg'), envs[k])
        p.install_to(envs[k].installation_target, None)
    have = {k: wheels[tags[k % 2]] if k in order else None for k in range(3)}
    for k in order:
        if S.flag(f'remove {k}'):
            envs[k].site_packages.installed_package('my-pkg').uninstall()
            have[k] = None
    if S.flag('other files'):
        put(work, {'note': 'x', 'my_pkg/note': 'x'})
    repo.remove_unused_packages(iter(envs))
    used = {f.read_text() for e in envs for f in e.path.rglob('SHARED')}
    left = {str(p) for p in work.glob('*/*/*') if p.is_dir()} if work.exists() else set()
    S.check(left == used, 'what no environment uses is collected, and nothing else', info=lambda: (order, list(have), sorted(left), sorted(used)))
    for k in range(3):
        verify(S, envs[k], have[k], False, lambda: (order, k))
    S.reach('two' if len(used) > 1 else 'none' if not used else 'one')


def requirements(S):
    """what a shared package requires is what the package requires"""
    quiet(S)
    root = S.scratch()
    reqs = ['x', "y; extra == 'more'", "z; python_version < '3'"]
    text = ''.join(f'Requires-Dist: {r}\n' for r in reqs) + 'Provides-Extra: more\n'
    w = Wheel(root, 'pure', 'py3-none-any', requires=text)
    envs = [Env(root / 'zoo' / f'e{i}', 'py3-none-any') for i in range(2)]
    base = Base(lambda env: w, requires=reqs)
    excluded = S.pick('excluded', [[], ['other'], ['my.pkg']])
    cfg = {'enabled': S.flag('enabled'), 'exclude': excluded}
    put(root / 'zoo', {'env-zoo.toml': f'[package-sharing]\nenabled = {str(cfg["enabled"]).lower()}\nexclude = {excluded!r}\n'})
    z = EnvironmentsZoo.load(root / 'zoo')
    repo = ZooRepositoryManagement(z)._wrap_attached_repository(BaseRepo([base]))
    extras = S.pick('extras', [None, [], ['more'], ['none']])
    when = S.pick('when', ['before', 'after', 'kept'])
    [p] = repo.match(Dependency.parse('my-pkg'), envs[0])
    if when != 'before':
        p.install_to(envs[0].installation_target, None)
    if when == 'after':
        [p] = repo.match(Dependency.parse('my-pkg'), envs[1])
    got = sorted(d.package_name for d in p.dependencies(envs[1].installation_target, extras))
    tell = lambda: dict(cfg=cfg, extras=extras, when=when, got=got)
    S.check(got == (['x', 'y'] if extras == ['more'] else ['x']), 'what a shared package requires is what the package requires', info=tell)
    p.install_to(envs[1].installation_target, None)
    verify(S, envs[1], w, False, tell)
    share = cfg['enabled'] and 'my.pkg' not in excluded
    S.check(all(bool(list(e.path.rglob('SHARED'))) == share for e in (envs if when != 'before' else envs[1:])), 'packages are shared as the zoo is configured', info=tell)
    S.check(base.installs == (1 if share or when == 'before' else 2) or when == 'kept', 'what is shared is not installed again', info=lambda: (tell(), base.installs))
    S.reach('shared' if share else 'own')
    S.check(p.descriptor == base.descriptor and p.is_compatible_with(envs[0]), 'a shared package is the package')


# ---- making environments

def created(S, n):
    """a virtual environment is made as PEP 405 and the site module of python read it"""
    quiet(S)
    root = S.scratch()
    windows, bits32, build = S.flag('windows'), S.flag('32 bits'), S.flag('python build')
    major, minor, micro = 3, S.pick('minor', [0, 9, 12]), S.pick('micro', [0, 13])
    posix = not windows
    platform = 'win32' if windows else S.pick('platform', ['linux', 'darwin', 'freebsd13'])
    home = root / S.pick('home', ['usr/bin', 'a = b/bin', 'with space'])
    put(home, {'python3': 'py', 'python.exe': 'py', 'pythonw.exe': 'pyw', 'tcl/init.tcl': 't', 'other': ''})

    class Ispc(dict):
        is_32bit_interpreter = bits32

        @staticmethod
        def is_windows_env():
            return windows
    ispc = Ispc(sys={'platform': platform, 'version_info': [major, minor, micro, 'final', 0]}, os={'name': 'posix' if posix else 'nt'},
                sysconfig={'is_python_build': build})
    S.patch(environment_builder, '_introspection_for', lambda p: ispc)
    target = root / 'x' / 'env'
    exists = S.pick('exists', ['', 'directory', 'file'])
    if exists:
        put(root / 'x', {'env/mine': 'm'} if exists == 'directory' else {'env': 'm'})
    before = tree(root)
    error = None
    try:
        env = EnvironmentBuilder.create(target, home / ('python.exe' if windows else 'python3'))
    except FileExistsError as e:
        error = e
    tell = lambda: dict(windows=windows, platform=platform, home=str(home), exists=exists, tree=sorted(snap(root)))
    if exists:
        S.check(error is not None and tree(root) == before, 'what is there is not overwritten', info=tell)
        S.reach('refused')
        return
    S.check(error is None, 'an environment is made', info=tell)
    # as site.py reads it
    values = {}
    for line in (target / 'pyvenv.cfg').read_text(encoding='utf-8').splitlines():
        if '=' in line:
            key, _, value = line.partition('=')
            values[key.strip().lower()] = value.strip()
    S.check(values.get('home') == str(home), 'python finds its home from the environment', info=lambda: (tell(), values))
    S.check(values.get('include-system-site-packages', 'true').lower() == 'false', 'the environment is isolated from the system', info=lambda: (tell(), values))
    S.check(values.get('version') == f'{major}.{minor}.{micro}', 'the version is that of the interpreter', info=lambda: (tell(), values))
    site = target / ('Lib/site-packages' if windows else f'lib/python{major}.{minor}/site-packages')
    S.check(site.is_dir() and not any(site.iterdir()), 'the site is there and empty', info=tell)
    bin_ = target / ('Scripts' if windows else 'bin')
    if windows:
        S.check((bin_ / 'python.exe').read_text() == 'py' and (bin_ / 'pythonw.exe').read_text() == 'pyw', 'the interpreter is in the environment', info=tell)
        S.check((target / 'tcl/init.tcl').exists() == build, 'a python that was built in place brings its library')
    else:
        for x in ('python', f'python{major}', f'python{major}.{minor}'):
            S.check((bin_ / x).exists() and (bin_ / x).resolve() == (home / 'python3').resolve(), 'the interpreter is in the environment, by all its names', info=lambda: (tell(), x))
        S.check((target / 'lib64').exists() == (not bits32 and platform != 'darwin'), 'lib64 is there where it is used', info=tell)
        if (target / 'lib64').exists():
            S.check((target / 'lib64').resolve() == (target / 'lib').resolve(), 'lib64 is lib')
    S.check({k: v for k, v in tree(root).items() if not k.startswith('x/env')} == before, 'nothing else changes')
    S.check(PyVEnvConfiguration.load(target / 'pyvenv.cfg').home == home, 'the configuration of an environment is read back', info=tell)
    if not windows:
        S.check(Environment.is_venv_path(target), 'what is made is an environment')
    S.reach('made')


def venvs(S):
    """zoos know their environments and nothing else"""
    quiet(S)
    root = S.scratch() / 'zoo'
    kinds = {x: S.pick(f'kind {x}', ['env', 'directory', 'file', 'absent']) for x in ('one', 'two')}
    put(root, {'.zoo/shared': None})
    for x, k in kinds.items():
        if k == 'env':
            put(root / x, {'pyvenv.cfg': '', 'bin/python': 'py', 'bin/tool': x, 'lib/site': None})
        elif k == 'directory':
            put(root / x, {'bin/tool': x})
        elif k == 'file':
            put(root, {x: 'f'})
    S.check(not EnvironmentsZoo.is_valid(root), 'a directory is a zoo only when it was made one')
    by_hand = S.flag('by hand')
    if by_hand:
        put(root, {'env-zoo.toml': '[package-sharing]\nenabled = true\n'})
    z = EnvironmentsZoo.load(root)
    S.check(EnvironmentsZoo.is_valid(root), 'a zoo is made by loading it')
    S.check(z.config.package_sharing is None or z.config.package_sharing.enabled, 'packages are shared by default')
    S.check(sorted(e.path.name for e in z.list()) == sorted(x for x, k in kinds.items() if k == 'env'), 'exactly the environments are listed', info=lambda: kinds)
    S.check(all(e.zoo is z for e in z.list()), 'environments know their zoo')
    x = 'one'
    try:
        e = z.load_environment(x)
        S.check(kinds[x] == 'env' and e.path == root / x and e.zoo is z, 'an environment is found by its name', info=lambda: kinds)
    except NoSuchElementException:
        S.check(kinds[x] == 'absent', 'an environment is missing when there is none', info=lambda: kinds)
    except ValueError:
        S.check(kinds[x] in ('directory', 'file'), 'what is no environment is not given as one', info=lambda: kinds)
    made = []
    S.patch(EnvironmentBuilder, 'create_matching', staticmethod(lambda path, spec: made.append((path, spec)) or Environment(path)))
    try:
        e = z.create_environment(x, 'spec')
        S.check(kinds[x] == 'absent' and made == [(root / x, 'spec')] and e.path == root / x and e.zoo is not None, 'environments are made where there is nothing', info=lambda: (kinds, str(made)))
        S.reach('made')
    except FileExistsError:
        S.check(kinds[x] != 'absent' and not made, 'what is there is not replaced', info=lambda: kinds)
    before = tree(root)
    if kinds[x] == 'env':
        S.patch(Environment, 'installation_target', types.SimpleNamespace(scripts=str(root / x / 'bin')))
        script = S.pick('script', ['tool', 'none'])
        try:
            z.export_script(x, script)
            S.check(script == 'tool', 'only what is there is exported')
            S.check({k: v for k, v in tree(root).items() if before.get(k) != v} == {'.zoo/bin/tool': b'one'}, 'a script is exported to the path of the zoo', info=lambda: sorted(tree(root)))
            S.reach('exported')
        except NoSuchElementException:
            S.check(script == 'none' and tree(root) == before, 'a script is missing when there is none')
    if kinds[x] in ('env', 'directory') and S.flag('delete'):
        before = tree(root)
        z.delete_environment(x)
        S.check(tree(root) == {k: v for k, v in before.items() if not k.startswith(x + '/')}, 'an environment is deleted, and nothing else')
    env = {'OTHER': '1'}
    path = S.pick('PATH', [None, '', '/usr/bin', '/a:/b'])
    if path is not None:
        env['PATH'] = path
    old = dict(env)
    fails = S.flag('fails')
    try:
        with z.activate(env):
            parts = env['PATH'].split(os.pathsep)
            S.check(parts == [str(root / '.zoo/bin')] + (path.split(os.pathsep) if path else []), 'the scripts of the zoo come first', info=lambda: env)
            if fails:
                raise KeyError('x')
    except KeyError:
        pass
    S.check(env == old, 'the path is restored', info=lambda: (env, old))
    S.reach('end')


def cases(tier):
    deep = tier == 'thorough'
    own, steps = ['py3-none-any', 'cp39-cp39-linux_x86_64'], 4 if deep else 3
    out = [Case(f'history[{form}]', zoo, dict(n=2, steps=steps, faults=0, forms=[form], tagged=own if form in ('pure', 'plat') else own[:1]),
                f'{steps} operations on two environments: install, install on request, install editable, remove, collect',
                (['shared'] if form in ('pure', 'scripts', 'plat') else []) + ['removed', 'collected'])
           for form in ('pure', 'scripts', 'plat', 'data', 'path', 'mixed')]
    out += [Case(f'faults[{k},{form}]', zoo, dict(n=2, steps=k + (1 if deep else 0), faults=k, forms=[form], tagged=own[:1]),
                 f'operation {k} fails at one of 36 file operations, before or half way; all environments are as they should be, and it works when repeated', ['failed'])
            for k in (1, 2) for form in ('scripts', 'data')]
    out += [Case('collected', collected, {}, 'two builds in either order, three environments, any of them removed', ['two', 'one', 'none']), Case('requirements', requirements, {}, 'four sets of extras, before, after and while sharing; three lists of excluded packages', ['shared', 'own']),
            Case('created', created, dict(n=0), 'platforms, versions and homes of interpreters', ['made', 'refused']),
            Case('zoo', venvs, {}, 'two names that are environments, directories, files or nothing; four paths', ['made', 'exported', 'end'])]
    return out
