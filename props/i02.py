"""I02: uninstalling removes what was asked for and what nothing needs any more, and never what a requested package needs."""
from pkm.api.dependencies.dependency import Dependency
from pkm.api import pkm as pkm_module
from pkm.api.packages import package_installation
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation import PackageInstallationTarget
from pkm.api.packages.package_installation_info import PackageInstallationInfo
from pkm.api.packages.site_packages import InstalledPackage, SitePackages
from pkm.api.versions.version_specifiers import AllowAllVersions

from props._world import Env, Lazy, V, quiet
from sx.session import Case

PROPERTY = 'I02'
ASSUMPTIONS = ['dist-infos are read from memory and uninstalling one package is recorded, not done (F03 covers its files)']

NAMES = {'my_app': 'My-App', 'lib_x': 'lib.x', 'util': 'Util', 'extra': 'extra'}


class Meta:
    required_python_spec = AllowAllVersions

    def __init__(self, name, version, requires):
        self.package_name, self.package_version, self.requires = name, V(version), requires

    @property
    def dependencies(self):
        return [Dependency.parse(t) for t in self.requires()]


class Info:
    """the dist-info of an installed package"""

    def __init__(self, name, version, requires, request):
        self.meta, self.request = Meta(name, version, requires), request

    def load_metadata_cfg(self):
        return self.meta

    def load_user_requested_dependency(self):
        return self.request

    def is_user_requested(self):
        return self.request is not None

    def load_installation_info(self):
        return PackageInstallationInfo()

    def mark_as_user_requested(self, request):
        self.request = request

    def unmark_as_user_requested(self):
        self.request = None


class Inst(InstalledPackage):
    def uninstall(self):
        self.site.removed.append(self.name_key)
        self.site.infos.pop(self.name_key)
        self.site.reload()

    def update_at(self, *a, **k):
        self.site.updated.append(self.name_key)
        super().update_at(*a, **k)


class Site(SitePackages):
    def __init__(self, infos, env):
        self.infos, self.env, self.removed, self.updated = infos, env, [], []

    def __eq__(self, other):
        return self is other

    @property
    def _name_to_packages(self):
        return {k: Inst(i, self) for k, i in self.infos.items()}


class Target(PackageInstallationTarget):
    def __init__(self, site):
        self.env, self.site = site.env, site
        site.env.installation_target = self

    @property
    def site_packages(self):
        return self.site

    def reload(self):
        pass


class FakePkm:
    threads = processes = None

    class config:
        concurrency_mode = 'none'


def offline(S):
    quiet(S)
    S.patch(pkm_module, 'pkm', FakePkm)
    S.patch(package_installation, 'Promise', Lazy)
    S.patch(package_installation, 'await_all_promises_or_cancel', lambda ps: [p.result() for p in ps])

    class Op:
        def __init__(self, *a):
            pass

        def with_async(self, promise):
            return promise
    S.patch(package_installation, 'PackageOperationMonitoredOp', Op)


def key_of(text):
    return text.lower().replace('-', '_').replace('.', '_')


# (from, to) -> how the requirement may be written, the extra it is for
TEXTS = {('my_app', 'lib_x'): [None, 'Lib-X', 'lib_x<2'], ('lib_x', 'util'): [None, 'util', 'UTIL>=2'],
         ('my_app', 'util'): [None, 'util>=2'], ('util', 'my_app'): [None, 'my.app'], ('util', 'lib_x'): [None, 'LIB-x'],
         ('my_app', 'extra'): [None, "Extra; extra=='x'", 'extra'], ('lib_x', 'my_app'): [None, 'My_App[x]', 'my-app'],
         ('extra', 'util'): [None, 'util'], ('lib_x', 'extra'): [None, 'extra', "extra; python_version<'3'"]}


def uninstall(S, edges, packages, removals, force=False):
    offline(S)
    var = {e: S.int(f'{e[0]}->{e[1]}', 0, len(TEXTS[e]) - 1) for e in edges}
    infos, user = {}, {}

    def reader(p):
        return lambda: [t for t in (TEXTS[e][S.conc(x)] for e, x in var.items() if e[0] == p) if t]
    version = {p: S.pick(f'{p}.version', [1, 2]) if p == 'lib_x' else 1 for p in packages}
    for p in packages:
        req = S.pick(f'{p}.requested', [None, '', '[x]'] if p == 'my_app' else [None, '', '>=2'] if p == 'lib_x' else [None, ''])
        if req is not None:
            user[p] = req
        infos[p] = Info(NAMES[p], version[p], reader(p), None if req is None else Dependency.parse(NAMES[p] + req))
    env = Env()
    site = Site(infos, env)
    target = Target(site)
    names = S.pick('remove', removals)
    keys = {key_of(n) for n in names}
    got = target.uninstall(list(names))
    S.reach('uninstalled')
    removed, left = set(site.removed), set(infos)

    # what is needed from the given roots (with the extra x or without), counting only what is here
    def needs(roots, strict=True):
        seen, todo = {}, list(roots)
        while todo:
            p, x = todo.pop()
            if p not in packages or (p, x) in seen:
                continue
            seen[p, x] = True
            for e in edges:
                if e[0] != p:
                    continue
                t = TEXTS[e][S.conc(var[e])]
                if t is None or strict and ('python_version' in t or ('extra==' in t and not x)):
                    continue
                todo.append((e[1], '[x]' in t))
        return {p for p, _ in seen}

    # (what an extra or another environment would need is not unrelated either)
    related = needs([(p, True) for p in user], strict=False)

    before = needs([(p, r == '[x]') for p, r in user.items()])
    rest = needs([(p, r == '[x]') for p, r in user.items() if p not in keys])
    inf = lambda: [names, user, {f'{a}->{b}': TEXTS[a, b][S.conc(x)] for (a, b), x in var.items()}, sorted(removed)]
    S.trace(sorted(removed), sorted(got), sorted((k, str(i.request)) for k, i in infos.items()))
    S.check(len(site.removed) == len(removed), 'a package is removed twice', info=inf)
    S.check(not (removed & rest), 'a package that a requested one needs is removed', info=inf)
    S.check(not ((keys & set(packages)) - rest - removed), 'what was to be removed is still there', info=inf)
    S.check(not (before - rest - removed), 'what nothing needs any more is still there', info=inf)
    S.check(not (removed - keys - related), 'what has nothing to do with the removal is removed', info=inf)
    S.check(set(got) == {n for n in names if key_of(n) in removed}, 'the wrong packages are reported as removed',
            info=lambda: [*inf(), sorted(got)])
    for p in left:
        want = None if p in keys else user.get(p)
        S.check((infos[p].request is None) == (want is None), 'a package is marked as requested by the user wrongly', info=inf)


def orphans(S, edges, packages):
    """removing the orphans, as 'pkm uninstall --orphans' does, leaves what is requested and what that needs"""
    offline(S)
    var = {e: S.int(f'{e[0]}->{e[1]}', 0, len(TEXTS[e]) - 1) for e in edges}
    infos, user = {}, {}

    def reader(p):
        return lambda: [t for t in (TEXTS[e][S.conc(x)] for e, x in var.items() if e[0] == p) if t]
    for p in packages:
        if S.flag(f'{p}.requested'):
            user[p] = ''
        infos[p] = Info(NAMES[p], 2, reader(p), Dependency.parse(NAMES[p]) if p in user else None)
    site = Site(infos, Env())
    target = Target(site)
    found = [p.name_key for p in site.find_orphan_packages()]
    S.reach('found')
    S.trace(sorted(found))

    def needs(texts):
        seen, todo = set(), list(user)
        while todo:
            p = todo.pop()
            if p not in seen:
                seen.add(p)
                todo += [e[1] for e in edges if e[0] == p and texts(TEXTS[e][S.conc(var[e])])]
        return seen

    seen, strict = needs(lambda t: t is not None), needs(lambda t: t and ';' not in t)
    # (a requirement that is for an extra, or for other environments, may keep a package)
    S.check(sorted(found) == sorted(set(packages) - seen), 'the wrong packages are found as orphans',
            info=lambda: [user, {f'{a}->{b}': TEXTS[a, b][S.conc(x)] for (a, b), x in var.items()}, found])
    if found:
        target.uninstall([NAMES[p] for p in found])
        S.check(strict <= set(infos) <= seen, 'removing the orphans does not leave what is needed',
                info=lambda: [user, {f'{a}->{b}': TEXTS[a, b][S.conc(x)] for (a, b), x in var.items()}, sorted(infos)])
    for p in packages:
        tree = {q.name_key for q in site.installation_tree_of(NAMES[p].upper())} if p in infos else set()
        if p in infos:
            S.check(p in tree and tree <= set(infos), 'the tree of a package is wrong')


def cases(tier):
    deep = tier == 'thorough'
    three = ['my_app', 'lib_x', 'util']
    removals = [['My-App'], ['my.app'], ['LIB_X'], ['lib-x', 'util'], ['nothing', 'Util'], ['nothing']]
    T = 1500 if deep else 400
    out = []
    for i, r in enumerate(removals):
        out.append(Case(f'three {i}', uninstall, dict(edges=[('my_app', 'lib_x'), ('lib_x', 'util'), ('util', 'my_app')],
                        packages=three, removals=[r]), f'three packages in a cycle, any requirements and requests, removing {r}',
                        reach=('uninstalled',), timeout=T, weight=4))
    out.append(Case('diamond', uninstall, dict(edges=[('my_app', 'lib_x'), ('my_app', 'util'), ('lib_x', 'util')], packages=three,
                    removals=[['my-app'], ['lib.x']] if not deep else removals), 'a shared dependency', reach=('uninstalled',), timeout=T, weight=4))
    out.append(Case('extras', uninstall, dict(edges=[('my_app', 'extra'), ('lib_x', 'my_app'), ('lib_x', 'extra')],
                    packages=['my_app', 'lib_x', 'extra'], removals=[['my-app'], ['lib.x'], ['Extra']]),
                    'a dependency of an extra', reach=('uninstalled',), timeout=T, weight=6))
    out.append(Case('orphans', orphans, dict(edges=[('my_app', 'lib_x'), ('lib_x', 'util'), ('util', 'lib_x'), ('my_app', 'extra')],
                    packages=['my_app', 'lib_x', 'util', 'extra']), 'four packages', reach=('found',), timeout=T, weight=4))
    if deep:
        four = ['my_app', 'lib_x', 'util', 'extra']
        out.append(Case('four', uninstall, dict(edges=[('my_app', 'lib_x'), ('lib_x', 'util'), ('my_app', 'extra'), ('extra', 'util'),
                        ('lib_x', 'my_app')], packages=four, removals=[['my-app'], ['lib.x', 'extra'], ['extra']]), 'four packages',
                        reach=('uninstalled',), timeout=3000, weight=12, best_effort=True))
    return out
