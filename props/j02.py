"""J02: commands change of a project, its groups and its files what they were asked to change."""
import os
import tomllib
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.projects.project import Project
from pkm.api.projects.project_group import ProjectGroup
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import AllowAllVersions
from pkm_cli.controllers import prj_controller
from pkm_cli.controllers.prj_controller import PrjController

from props._fs import put, snap
from props._world import quiet
from sx.session import Case

PROPERTY = 'J02'
ASSUMPTIONS = ['that environments install what they are asked to is decided by other properties; here they record what they are asked',
               'that requirements, versions and documents are read and written right is decided by other properties']


class Failure(Exception):
    pass


class Installed:
    def __init__(self, name, version):
        self.descriptor = PackageDescriptor(name, Version.parse(version))
        self.name, self.version, self.name_key = self.descriptor.name, self.descriptor.version, self.descriptor.name_key


class Target:
    def __init__(self, env):
        self.env = env


class Site:
    def __init__(self):
        self.packages = {}

    def put(self, name, version):
        self.packages[PackageDescriptor.package_name_key(name)] = Installed(name, version)

    def installed_packages(self):
        return list(self.packages.values())

    def installed_package(self, name):
        return self.packages.get(PackageDescriptor.package_name_key(name))


class FakeEnv:
    """an environment that installs what it is asked to, or fails"""
    markers = {'python_version': '3.9', 'sys_platform': 'linux', 'os_name': 'posix'}
    markers_hash = 'this'
    interpreter_version = Version.parse('3.9.1')

    def __init__(self, project, versions, fails=False):
        self.project, self.versions, self.fails = project, versions, fails
        self.site_packages, self.calls = Site(), []
        self.installation_target = Target(self)

    def install(self, dependencies, repository=None, user_requested=True, dependencies_override=None, store_modes=None, updates=None):
        extras = [e for d in dependencies for e in d.extras or []]
        needed = [str(d) for d in self.project.dependencies(self.installation_target, extras)]
        self.calls.append((dependencies, needed, dict(store_modes or {}), list(updates or [])))
        if self.fails:
            raise Failure()
        for d in self.project.dependencies(self.installation_target, extras):
            self.site_packages.put(d.package_name, self.versions[d.package_name_key])

    def uninstall(self, packages, force=False):
        self.calls.append((list(packages), force))
        if self.fails:
            raise Failure()
        removed = {p for p in packages if self.site_packages.packages.pop(PackageDescriptor.package_name_key(p), None)}
        return removed


class Printer:
    @staticmethod
    def print(*a, **k):
        pass


key = PackageDescriptor.package_name_key


def config_of(path):
    """what the file says about requirements"""
    p = tomllib.loads((path / 'pyproject.toml').read_text(encoding='utf-8'))['project']
    return list(p.get('dependencies', [])), {k: list(v) for k, v in p.get('optional-dependencies', {}).items()}


def same(texts, other):
    return sorted(str(Dependency.parse(t)) for t in texts) == sorted(str(Dependency.parse(t)) for t in other)


REST = '\n[tool.x]\na = 1 # mine\n'
INITIAL = {'none': ([], {}), 'both': (['my-pkg>=1', 'other<5;os_name=="posix"'], {'dev': ['My.Pkg==1.5', 'x'], 'doc': ['y>2']}), 'dev': ([], {'dev': ['x']})}
VERSIONS = {'my_pkg': ['1.5', '2.0a1', '1!2.3.4', '1.0+cpu.1', '0.1.dev3', '2.1.post1'], 'new': ['3.2'], 'other': ['4.0'], 'x': ['1'], 'y': ['3']}


def project_of(S, initial):
    deps, optional = initial
    root = S.scratch()
    text = '# head\n[project]\nname = "The-Project"\nversion = "1.2.3"\n'
    if deps:
        text += f'dependencies = {deps!r}\n'
    if optional:
        text += '[project.optional-dependencies]\n' + ''.join(f'{k} = {v!r}\n' for k, v in optional.items())
    put(root, {'pyproject.toml': text + REST, 'src/the_project/__init__.py': ''})
    project = Project.load(root)

    class Management:
        attached_repo = 'the repository'
    project.repository_management, project.group = Management(), None
    quiet(S)
    S.patch(prj_controller, 'Display', Printer)
    return root, project


REQUESTS = [['new'], ['My_PKG'], ['my.pkg<9', 'new>3'], ['new', 'MY-pkg'], ['my_pkg[e]'], ['new;os_name=="posix"'], ['new;os_name=="nt"', 'x>0'], ['x>0']]


def install(S, initial):
    """installing adds the requirements to the file when, and only when, they could be installed"""
    root, project = project_of(S, INITIAL[initial])
    before_deps, before_opt = config_of(root)
    request = S.pick('request', REQUESTS)
    group = S.pick('group', [None, 'dev', 'fresh'])
    version = S.pick('version', VERSIONS['my_pkg'] if any(key(r[:6]) == 'my_pkg' and r not in ('my.pkg<9', ) for r in request) else ['1.5'])
    versions = {**{k: v[0] for k, v in VERSIONS.items()}, 'my_pkg': version}
    env = FakeEnv(project, versions, S.flag('fails'))
    project.attached_environment = env
    update, mode = S.flag('update'), S.pick('mode', [StoreMode.AUTO, StoreMode.COPY])
    disk, memory = snap(root), (list(project.config.project.dependencies), {k: list(v) for k, v in (project.config.project.optional_dependencies or {}).items()})
    requested = [Dependency.parse(r) for r in request]
    try:
        PrjController(project).install_dependencies(requested, optional_group=group, update=bool(update), store_mode=mode)
        failed = False
    except Failure:
        failed = True
    S.check(failed == env.fails, 'the installation fails when the environment does')
    names = {d.package_name_key for d in requested}
    where = before_opt.get(group, []) if group else before_deps
    kept = [d for d in where if Dependency.parse(d).package_name_key not in names]
    deps, needed, modes, updates = env.calls[0]
    S.check(len(env.calls) == 1 and [d.package_name_key for d in deps] == ['the_project'] and list(deps[0].extras or []) == ([group] if group else []),
            'the project is installed with the group', info=lambda: (deps, deps[0].extras))
    want = kept + [r for r in request if '"nt"' not in r] + (before_deps if group else [])
    bare = lambda d: (Dependency.parse(d).package_name_key, str(Dependency.parse(d).version_spec), tuple(Dependency.parse(d).extras or ()))
    S.check(sorted(map(bare, needed)) == sorted(map(bare, want)), 'what is installed is what the project will need', info=lambda: (needed, want))
    S.check('the_project' in map(key, updates) and {key(u) for u in updates} - {'the_project'} == (names if update else set()), 'the packages to update are told', info=lambda: updates)
    S.check({key(k): v for k, v in modes.items()} == {n: mode for n in names}, 'the modes are told', info=lambda: modes)
    now_deps, now_opt = config_of(root)
    if failed:
        S.check(snap(root) == disk, 'a failed installation leaves the files as they are', info=lambda: snap(root))
        after = (list(project.config.project.dependencies), {k: list(v) for k, v in (project.config.project.optional_dependencies or {}).items() if v})
        S.check(str(after) == str(memory), 'a failed installation leaves the project as it is', info=lambda: (after, memory))
        return S.reach('failed')
    got = now_opt.get(group, []) if group else now_deps
    S.check(same(now_deps, before_deps) if group else same_groups(now_opt, before_opt), 'the other requirements stay', info=lambda: (now_deps, now_opt))
    S.check(all(same(now_opt.get(g, []), before_opt.get(g, [])) for g in {*now_opt, *before_opt} if g != group), 'the other groups stay', info=lambda: now_opt)
    S.check(same([g for g in got if Dependency.parse(g).package_name_key not in names], kept), 'what was not asked for stays', info=lambda: got)
    mine = [Dependency.parse(g) for g in got if Dependency.parse(g).package_name_key in names]
    S.check(sorted(d.package_name_key for d in mine) == sorted(names), 'what was asked for is there, once', info=lambda: got)
    for r in requested:
        d = next(d for d in mine if d.package_name_key == r.package_name_key)
        v = Version.parse(versions[r.package_name_key])
        S.check(d.version_spec.allows_version(v), 'the requirement admits what is installed', info=lambda: (str(d), str(v)))
        S.check(sorted(d.extras or []) == sorted(r.extras or []) and str(d.env_marker or '') == str(r.env_marker or ''), 'the requirement keeps its extras and marker', info=lambda: (str(d), str(r)))
        if r.version_spec is not AllowAllVersions:
            S.check(str(d) == str(r), 'the requirement is what was asked for', info=lambda: (str(d), str(r)))
        elif '"nt"' not in str(r):
            S.check(d.version_spec is not AllowAllVersions, 'the requirement has the range of versions that is installed', info=lambda: str(d))
            import packaging.specifiers as ps
            S.check(valid_specifiers(ps, str(d.version_spec)), 'the requirement can be read by others', info=lambda: str(d))
    S.check((root / 'pyproject.toml').read_text(encoding='utf-8').startswith('# head\n') and REST in (root / 'pyproject.toml').read_text(encoding='utf-8'), 'the rest of the file stays',
            info=lambda: (root / 'pyproject.toml').read_text(encoding='utf-8'))
    locked = tomllib.loads((root / 'etc/pkm/packages-lock.toml').read_text(encoding='utf-8'))['lock']
    S.check(sorted((l['package']['name'], l['package']['version']) for l in locked) == sorted((p.name, str(p.version)) for p in env.site_packages.installed_packages()),
            'the lock is what is installed', info=lambda: locked)
    again = Project.load(root).config.project
    S.check(same(map(str, again.dependencies), now_deps), 'the file is read back')
    S.reach('installed')


def valid_specifiers(ps, text):
    try:
        ps.SpecifierSet(text)
        return True
    except ps.InvalidSpecifier:
        return False


def same_groups(a, b):
    return all(same(a.get(g, []), b.get(g, [])) for g in {*a, *b})


def uninstall(S, initial):
    root, project = project_of(S, INITIAL[initial])
    before_deps, before_opt = config_of(root)
    names = S.pick('names', [['my-pkg'], ['MY_PKG', 'x'], ['other'], ['nothing'], ['y', 'x', 'my.pkg', 'other']])
    env = FakeEnv(project, {}, S.flag('fails'))
    for n, v in (('my-pkg', '1.5'), ('other', '4.0'), ('x', '1')):
        env.site_packages.put(n, v)
    project.attached_environment = env
    updated = []
    project.update_at = lambda target, *a, **k: updated.append([str(d) for d in project.dependencies(target, [])])
    disk = snap(root)
    force = bool(S.flag('force'))
    try:
        PrjController(project).uninstall_dependencies(names, force)
        failed = False
    except Failure:
        failed = True
    keys = {key(n) for n in names}
    S.check(failed == env.fails, 'uninstalling fails when the environment does')
    S.check(env.calls == [(names, force)], 'the packages are uninstalled', info=lambda: env.calls)
    S.check(len(updated) == 1 and not [d for d in updated[0] if Dependency.parse(d).package_name_key in keys], 'what is installed of the project does not need them any more', info=lambda: updated)
    now_deps, now_opt = config_of(root)
    if failed:
        S.check(snap(root) == disk, 'a failed removal leaves the files as they are')
        return S.reach('failed')
    keep = lambda deps: [d for d in deps if Dependency.parse(d).package_name_key not in keys]
    S.check(same(now_deps, keep(before_deps)) and all(same(now_opt.get(g, []), keep(before_opt.get(g, []))) for g in {*now_opt, *before_opt}),
            'the requirements are removed, the others stay', info=lambda: (now_deps, now_opt))
    S.check(REST in (root / 'pyproject.toml').read_text(encoding='utf-8'), 'the rest of the file stays')
    locked = tomllib.loads((root / 'etc/pkm/packages-lock.toml').read_text(encoding='utf-8'))['lock']
    S.check(sorted(l['package']['name'] for l in locked) == sorted(p.name for p in env.site_packages.installed_packages()), 'the lock is what is installed', info=lambda: locked)
    S.reach('uninstalled')


def history(S, n):
    """any history of bumps, renames and edits: the project, its metadata and its file agree"""
    root, project = project_of(S, INITIAL['none'])
    version, saved = '1.2.3', '1.2.3'
    _ = project.descriptor, project.published_metadata, project.version
    for i in range(n):
        particle = S.pick(f'particle{i}', ['major', 'minor', 'patch', 'rc', 'name', 'bad'])
        save = bool(S.flag(f'saved{i}'))
        try:
            new = project.bump_version(particle, 'trunk' if particle == 'name' else None, save=save)
        except Exception as e:
            ok = particle == 'bad' or version == 'trunk'
            S.check(ok, 'a version can be bumped', info=lambda: (version, particle, e))
        else:
            S.check(particle != 'bad' and (version != 'trunk' or particle == 'name'), 'a version that has no parts is not bumped', info=lambda: (version, particle))
            version = 'trunk' if particle == 'name' else str(Version.parse(version).bump(particle))
            S.check(str(new) == version, 'the new version is told', info=lambda: (new, version))
            saved = version if save else saved
        seen = [str(project.version), str(project.descriptor.version), str(project.published_metadata.package_version), str(project.config.project.version)]
        S.check(seen == [version] * 4, 'the project has the version', info=lambda: (seen, version))
        text = (root / 'pyproject.toml').read_text(encoding='utf-8')
        S.check(tomllib.loads(text)['project']['version'] == saved and REST in text, 'the file has the version that was saved', info=lambda: text)
        S.check(str(Project.load(root).version) == saved, 'the file is read with it')
    S.reach('bumped')


def groups(S, shape):
    """membership"""
    root = S.scratch()
    places = {'flat': ['p1', 'p2'], 'deep': ['a/p1', 'b/c/p2'], 'outside': ['../p1', 'x/../p2']}[shape]
    top, sub = root / 'g', root / 'g' / 'sub'
    listed = [bool(S.flag(f'lists {i}')) for i in range(2)]
    absolute = bool(S.flag('absolute'))
    has_sub = bool(S.flag('has a group in it'))
    named = bool(S.flag('names its parent'))
    spell = lambda place: str((top / place)) if absolute else place
    children = [spell(p) for p, l in zip(places, listed) if l] + (['sub'] if has_sub else [])
    put(top, {'pyproject-group.toml': f'name = "top" # n\nchildren = {children!r}\n'})
    put(sub, {'pyproject-group.toml': 'children = ["q"]\n' + ('parent = ".."\n' if named else '')})
    for p, n in [*((top / p, f'prj{i}') for i, p in enumerate(places)), (sub / 'q', 'q')]:
        (top / 'x').mkdir(exist_ok=True)
        put(p, {'pyproject.toml': f'[project]\nname="{n}"\nversion="1"\n'})
    quiet(S)
    g = ProjectGroup.load(top)
    projects = [c for c in g.children if isinstance(c, Project)]
    S.check(sorted(p.name for p in projects) == [f'prj{i}' for i in range(2) if listed[i]], 'the projects of a group are those it lists', info=lambda: projects)
    S.check([c.path.name for c in g.children if not isinstance(c, Project)] == (['sub'] if has_sub else []), 'the groups of a group are those it lists')
    S.check(all(p.group is g for p in projects), 'projects know their group')
    S.check(sorted(p.name for p in g.project_children_recursive) == sorted([p.name for p in projects] + (['q'] if has_sub else [])), 'the projects of groups are found')
    S.check(all(c.parent is g for c in g.children if not isinstance(c, Project)), 'groups know their parent')
    for i, p in enumerate(places):
        found = Project.load(top / p).group
        inside = '..' not in p or p.startswith('x')
        if not listed[i]:
            S.check(found is None, 'a project that is not listed has no group', info=lambda: found)
        elif inside:
            S.check(found is not None and found.path.resolve() == top.resolve() and found.root.path.resolve() == top.resolve(), 'a project finds the group that lists it', info=lambda: found)
    s = ProjectGroup.load(sub)
    linked = has_sub or named
    S.check((s.parent.path.resolve() if s.parent else None) == (top.resolve() if linked else None), 'a group finds its parent', info=lambda: s.parent and s.parent.path)
    S.check(s.root.path.resolve() == (top if linked else sub).resolve(), 'a group finds its root', info=lambda: s.root.path)
    q = Project.load(sub / 'q')
    S.check(q.group is not None and q.group.path.resolve() == sub.resolve(), 'the nearest group that lists a project is its group')
    S.reach('grouped')
    model = {(top / p).resolve(): f'prj{i}' for i, p in enumerate(places) if listed[i]}
    for step in range(2):
        op = S.pick(f'op{step}', ['add', 'remove', 'add again'])
        i = S.conc(S.int(f'project{step}', 0, 1))
        path = top / places[i]
        if op == 'remove':
            if S.flag(f'by name{step}'):
                if path.resolve() not in model:
                    continue
                g.remove(f'prj{i}')
            else:
                g.remove(path)
            model.pop(path.resolve(), None)
        else:
            g.add(path if op == 'add' else Project.load(path))
            model[path.resolve()] = f'prj{i}'
        for seen in (g, ProjectGroup.load(top)):
            S.check(sorted(c.name for c in seen.project_children_recursive if c.name != 'q') == sorted(model.values()), 'the group has what was added', info=lambda: (op, seen.config.children))
            S.check(has_sub == any(not isinstance(c, Project) for c in seen.children), 'the other children stay')
        text = (top / 'pyproject-group.toml').read_text()
        S.check('# n' in text and len(tomllib.loads(text).get('children', [])) == len(model) + has_sub, 'the file lists every child once', info=lambda: text)
    S.reach('edited')


def dist(S):
    """cleaning removes the artifacts, except for those of the versions that are kept, and nothing else"""
    root, project = project_of(S, INITIAL['none'])
    exists = S.flag('there are artifacts')
    out = S.scratch()
    put(out, {'mine.txt': 'm'})
    if exists:
        put(root, {'dist/1.2.3/a.whl': 'w', 'dist/1.2.3/a.tar.gz': 's', 'dist/1.2/b.whl': 'b', 'dist/1.2.30/c.whl': 'c', 'dist/loose.whl': 'l'})
        if S.flag('a link'):
            (root / 'dist/linked').symlink_to(out)
    keep = S.pick('kept', [None, [], ['1.2.3'], ['1.2', '9'], ['1.2.30', '1.2.3']])
    before = snap(root)
    project.directories.clean_dist(keep and [Version.parse(k) for k in keep])
    want = {k: v for k, v in before.items() if not k.startswith('dist/') or k.split('/')[1] in (keep or [])}
    after = snap(root)
    S.check({k: v for k, v in after.items() if not k.startswith('etc')} == {k: v for k, v in want.items() if not k.startswith('etc')}, 'what is not kept is removed, and nothing else', info=lambda: (sorted(after), keep))
    S.check(snap(out) == {'mine.txt': b'm'}, 'what is linked stays')
    S.check(project.is_built_in_default_location() == bool(exists and keep and '1.2.3' in keep), 'the project knows whether it is built')
    S.reach('cleaned')


def environment(S, where):
    """the environment of a project is where it is configured, and nothing that is not an environment is removed for it"""
    root = S.scratch()
    kind = S.pick('configured', ['no', 'path', 'absolute path', 'zoo'])
    text = {'no': '', 'path': '[attached-env]\npath = "../envs/mine"\n', 'absolute path': f'[attached-env]\npath = "{root}/envs/mine"\n', 'zoo': f'[attached-env]\nzoo = "{root}/zoo"\n'}[kind]
    put(root, {'g/pyproject-group.toml': 'children = ["p"]\n', 'g/p/pyproject.toml': '[project]\nname="p"\nversion="1"\nrequires-python=">=3.5"\n'})
    put(root, {('g/p' if where == 'project' else 'g') + '/etc/pkm/environments.toml': text})
    there = S.pick('there', ['nothing', 'environment', 'broken environment', 'empty directory', 'files'])
    base = root / 'g' / ('p' if where == 'project' else '')
    want = {'no': root / 'g/p/.venv', 'path': base / '../envs/mine', 'absolute path': root / 'envs/mine', 'zoo': root / 'zoo/p'}[kind]
    files = {'nothing': {}, 'environment': {'pyvenv.cfg': '', 'bin/python': ''}, 'broken environment': {'pyvenv.cfg': '', 'lib/x': ''}, 'empty directory': {'': None}, 'files': {'thesis.txt': 't'}}[there]
    put(want, files)
    created = []

    class Made:
        def __init__(self, path):
            self.path = path

    def create(path, spec):
        created.append((path.resolve(), str(spec), path.exists()))
        return Made(path)
    S.patch(EnvironmentBuilder, 'create_matching', staticmethod(create))
    cwd = Path.cwd()
    S.on_exit(lambda: os.chdir(cwd))
    os.chdir('/')
    quiet(S)
    project = Project.load(root / 'g/p')
    try:
        env, failed = project.attached_environment, None
    except Exception as e:
        failed = e
    if there == 'files':
        S.check(snap(want) == {'thesis.txt': b't'} or kind == 'no', 'files that are not an environment stay', info=lambda: snap(want))
        if failed:
            return S.reach('refused')
    S.check(failed is None, 'the project has an environment', info=lambda: failed)
    S.check(env.path.resolve() == want.resolve(), 'the environment is where it is configured', info=lambda: env.path)
    if there == 'environment':
        S.check(not created and sorted(snap(want)) == ['bin', 'bin/python', 'pyvenv.cfg'], 'an environment that is there is used', info=lambda: created)
    else:
        S.check(created == [(want.resolve(), '>=3.5', False)], 'an environment is made that fits the project', info=lambda: created)
    S.check(project.attached_environment is env, 'the project has one environment')
    S.reach('attached')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for initial in INITIAL:
        out.append(Case(f'install into a project with {initial}', install, dict(initial=initial), bounds='seven requests, six kinds of versions', reach=['installed', 'failed'], timeout=600))
    out += [Case('uninstall', uninstall, dict(initial='both'), bounds='five requests', reach=['uninstalled', 'failed']),
            Case('uninstall from a group', uninstall, dict(initial='dev'), bounds='five requests', reach=['uninstalled', 'failed']),
            Case('histories of versions', history, dict(n=3 if t else 2), bounds='two (thorough: three) bumps', reach=['bumped'], timeout=600),
            Case('artifacts', dist, {}, bounds='every set of kept versions', reach=['cleaned'])]
    for shape in ('flat', 'deep', 'outside'):
        out.append(Case(f'groups of {shape} projects', groups, dict(shape=shape), bounds='two projects, a group in a group, two edits', reach=['grouped', 'edited'], timeout=600))
    for where in ('project', 'group'):
        out.append(Case(f'environment of the {where}', environment, dict(where=where), bounds='every form of configuration', reach=['attached']))
    return out
