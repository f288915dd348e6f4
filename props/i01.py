"""I01: an installation plan gives what is requested and breaks nothing that was requested before."""
from itertools import product

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.packages.package_installation import PackageInstallationTarget, PackageOperation, _UserRequestPackage
from pkm.api.packages.package_installation_info import PackageInstallationInfo, StoreMode
from pkm.resolution.pubgrub import UnsolvableProblemException

from props._world import Env, Pkg, Repo, Req, V, quiet
from sx.session import Case, Diverged

PROPERTY = 'I01'
ASSUMPTIONS = ['three packages of two versions; the site is consistent before the installation (the dependencies and the user '
               'requests of what is installed are met), and what is installed is also in the repository']

APP, LIB, UTIL = 'my_app', 'lib_x', 'util'
NAMES = {APP: 'My-App', LIB: 'lib.x', UTIL: 'Util'}
ALL = [APP, LIB, UTIL]


def ge2(v):
    return v >= 2


def lt2(v):
    return v < 2


DEPS = {
    (APP, LIB): [None, Req('Lib-X', LIB), Req('lib.x<2', LIB, lt2), Req('lib_x>=2', LIB, ge2)],
    (LIB, UTIL): [None, Req('util', UTIL), Req('util<2', UTIL, lt2), Req('UTIL>=2', UTIL, ge2)],
    (UTIL, APP): [None, Req('my.app>=2', APP, ge2)],
}


class Installed(Package):
    def __init__(self, name, version, requires, user_request, mode):
        self._d, self.requires, self.user_request = PackageDescriptor(name, V(version)), requires, user_request
        self.installation_info = PackageInstallationInfo(store_mode=mode)

    @property
    def descriptor(self):
        return self._d

    def dependencies(self, target, extras=None):
        return [r.parse() for r in self.requires()]

    def is_compatible_with(self, env):
        return True

    def install_to(self, *a, **k):
        raise NotImplementedError


class Site:
    def __init__(self, packages):
        self.packages = packages

    def installed_packages(self):
        return list(self.packages)

    def installed_package(self, name):
        key = PackageDescriptor.package_name_key(name)
        return next((p for p in self.packages if p.name_key == key), None)

    def reload(self):
        pass


class Target(PackageInstallationTarget):
    def __init__(self, site):
        self.env, self.site = Env(), site

    @property
    def site_packages(self):
        return self.site

    def reload(self):
        pass


class World:
    def __init__(self, S, edges, packages=ALL, installed=None, requests=('', '', '<2')):
        """the repository, and a consistent site: which versions are installed and which were requested by the user"""
        self.S, self.packages = S, packages
        self.var = {}
        for p in packages:
            for v in (1, 2):
                for (a, b) in edges:
                    if a == p and b in packages:
                        self.var[p, v, b] = S.int(f'{p}{v}->{b}', 0, len(DEPS[a, b]) - 1)
        self.repo = Repo({p: [Pkg(NAMES[p], v, self.reader(p, v)) for v in (2, 1)] for p in packages})
        self.inst, self.user, self.ok = {}, {}, {}
        site = []
        for p in packages:
            v = S.pick(f'{p}.installed', [0, 1, 2])
            self.inst[p] = v
            if not v:
                continue
            spec = S.pick(f'{p}.requested', [None, '', '<2', '>=2'])
            if spec is not None:
                self.ok[p] = {'': lambda v: True, '<2': lt2, '>=2': ge2}[spec]
                S.assume(self.ok[p](v))
                self.user[p] = Dependency.parse(NAMES[p] + spec)
        for p, v in self.inst.items():
            if v:
                site.append(Installed(NAMES[p], v, self.reader(p, v), self.user.get(p), StoreMode.COPY))
        S.assume(self.met(self.inst))
        self.site = Site(site)
        self.target = Target(self.site)

    def reader(self, p, v):
        def read():
            return [r for r in (DEPS[a, b][self.S.conc(x)] for a, b, x in
                                ((a, b, x) for (a, w, b), x in self.var.items() if a == p and w == v)) if r]
        return read

    def met(self, choice, over=None):
        """the condition that the dependencies of everything in choice are met"""
        conds = []
        for (p, v, q), x in self.var.items():
            if choice.get(p) == v:
                ok = [x == i for i, r in enumerate(DEPS[p, q])
                      if r is None or (choice.get(q) and ((over or {}).get(q) or r.ok)(choice[q]))]
                conds.append(self.S.any(ok))
        return self.S.all(conds)

    def options(self):
        return [dict(zip(self.packages, vs)) for vs in product(range(3), repeat=len(self.packages))]


REQUESTS = [('lib.x', LIB, lambda v: True), ('Lib-X>=2', LIB, ge2), ('lib_x<2', LIB, lt2), ('my-app', APP, lambda v: True),
            ('My.App<2', APP, lt2), ('Util', UTIL, lambda v: True)]


def plan(S, edges, requests, updates=(), over=False):
    quiet(S)
    w = World(S, edges)
    text, key, ok = REQUESTS[S.pick('request', requests)]
    up = S.pick('updates', [None] + list(updates)) if updates else None
    upkeys = {PackageDescriptor.package_name_key(u) for u in up or ()}
    # asking for an update of everything requested, as 'pkm install --update' does
    by_user = bool(S.flag('by user'))
    override, okover = None, None
    if over:
        override, okover = {'Lib-x': Dependency.parse('lib.X>=2')}, {LIB: ge2}
        # (a requested package may stay as it is when nothing that is installed depends on it)
        w.ok.update({k: (lambda v, a=w.ok[k], b=f: a(v) or b(v)) for k, f in okover.items() if k in w.ok})

    request = Dependency.parse(text)
    try:
        got = S.bounded(lambda: w.target.plan_installation([request], w.repo, by_user, override, up), 150000)
    except UnsolvableProblemException:
        S.reach('refused')
        possible = []
        for c in w.options():
            if c[key] and ok(c[key]) and all(c[p] and f(c[p]) for p, f in w.ok.items() if p != key):
                possible.append(w.met(c, okover))
        S.check(S.not_(S.any(possible)), 'an installation that is possible is refused',
                info=lambda: [w.inst, {k: str(d) for k, d in w.user.items()}, text])
        return
    except Diverged:
        S.check(False, 'planning does not come to an end')
        return
    S.reach('planned')
    packages = [p for p in got.packages if not isinstance(p, _UserRequestPackage)]
    keys = [p.name_key for p in packages]
    after = {k: p.version.release[0] for k, p in zip(keys, packages)}
    S.trace(sorted(after.items()), sorted(got.user_requests))
    inf = lambda: [w.inst, {k: str(d) for k, d in w.user.items()}, text, after]
    S.check(len(set(keys)) == len(keys), 'a package is planned twice', info=inf)
    S.check(bool(after.get(key)) and ok(after[key]), 'the plan does not give what is requested', info=inf)
    for p, f in w.ok.items():
        if p != key:
            S.check(bool(after.get(p)) and f(after[p]), 'the plan breaks what was requested before', info=inf)
    # what is needed by requested packages stays consistent
    need, todo = set(), [key, *w.ok]
    while todo:
        p = todo.pop()
        if p not in need:
            need.add(p)
            for (a, v, b), x in w.var.items():
                if a == p and after.get(p) == v and DEPS[a, b][S.conc(x)] is not None:
                    todo.append(b)
    S.check(w.met({p: after.get(p, 0) for p in need}, okover), 'the plan breaks a dependency', info=inf)
    # nothing that can stay is touched: adding the request alone is preferred over changing what is installed
    if not upkeys and not over:
        changed = [p for p in ALL if w.inst[p] and after.get(p) != w.inst[p]]
        if changed and not (w.inst[key] and not ok(w.inst[key])):
            adds = [c for c in w.options() if all(c[p] == v for p, v in w.inst.items() if v) and c[key] and ok(c[key])]
            S.check(S.not_(S.any([w.met(c) for c in adds if c[key] == 2 or not ok(2) or w.inst[key]])),
                    'what is installed is changed although it did not have to', info=inf)
    if not upkeys and w.inst[key] and ok(w.inst[key]):
        S.check(after[key] == w.inst[key], 'a package that is installed and fits is replaced', info=inf)
    if up and key in upkeys and not any(w.inst[p] for p in ALL if p != key):
        best = [c for c in w.options() if c[key] == 2 and ok(2)]
        if after[key] != 2:
            S.check(S.not_(S.any([w.met(c, okover) for c in best])), 'a package to update is not updated', info=inf)
    # the requests that get recorded
    want = {k: str(d) for k, d in w.user.items()}
    if by_user:
        want[key] = str(request)
    S.check({k: str(d) for k, d in got.user_requests.items()} == want, 'the wrong packages are marked as requested by the user',
            info=lambda: [{k: str(d) for k, d in got.user_requests.items()}, want])
    # the operations lead from what is installed to the plan
    ops = got.compute_operations_for_target()
    seen = {}
    for p, op in ops.items():
        S.check(p.name_key not in seen, 'two operations for one package', info=inf)
        seen[p.name_key] = (op, p)
    for p in ALL:
        v, a = w.inst[p], after.get(p, 0)
        op, pkg = seen.get(p, (None, None))
        if not v and not a:
            good = op is None
        elif not v:
            good = op is PackageOperation.INSTALL and pkg.version == V(a)
        elif not a:
            good = op is PackageOperation.REMOVE and pkg.version == V(v)
        elif v != a:
            good = op is PackageOperation.UPDATE and pkg.version == V(a) and not isinstance(pkg, Installed)
        else:
            same = p not in want or want[p] == str(w.user.get(p))
            good = op is (PackageOperation.SKIP if same else PackageOperation.UPDATE) and pkg.version == V(v)
        S.check(good, 'the operations do not lead to the plan', info=lambda: inf() + [p, str(op)])


def special(S, kind):
    """requests that need something other than packages of the repository, or more than one of them"""
    quiet(S)
    w = World(S, [(APP, LIB)], packages=[APP, LIB])
    inf = lambda: [w.inst, {k: str(d) for k, d in w.user.items()}]
    if kind == 'unknown':
        text = S.pick('text', ['nothing', 'nothing>=1', 'Nothing[x]', "nothing; python_version>='3'"])
        try:
            S.bounded(lambda: w.target.plan_installation([Dependency.parse(text)], w.repo), 100000)
        except UnsolvableProblemException:
            S.reach('refused')
            return
        S.check(False, 'a package that does not exist is planned', info=inf)
    elif kind == 'several':
        texts = [S.pick(f'text{i}', ['lib-x', 'Lib.X<2', 'lib_x>=2', "lib.x<2; python_version<'3'", "lib-x>=2; python_version<'3'"])
                 for i in range(2)]
        oks = [{'<2': lt2, '=2': ge2}.get(t[-2:], lambda v: True) for t in texts]
        here = [o for o, t in zip(oks, texts) if ';' not in t]
        try:
            got = S.bounded(lambda: w.target.plan_installation([Dependency.parse(t) for t in texts], w.repo), 100000)
        except UnsolvableProblemException:
            S.reach('refused')
            S.check(S.not_(S.any([w.met(c) for c in w.options() if c[LIB] and all(o(c[LIB]) for o in here) and
                                  all(c[p] and f(c[p]) for p, f in w.ok.items() if p != LIB or not here)])),
                    'an installation that is possible is refused', info=inf)
            return
        S.reach('planned')
        after = {p.name_key: p.version.release[0] for p in got.packages if not isinstance(p, _UserRequestPackage)}
        S.trace(after)
        if here:
            S.check(LIB in after and all(o(after[LIB]) for o in here), 'the plan does not give all that is requested',
                    info=lambda: [*inf(), texts, after])
            S.check(LIB in got.user_requests and all(
                not got.user_requests[LIB].version_spec.allows_version(V(v)) or all(o(v) for o in here) for v in (1, 2)),
                    'the wrong request is recorded', info=lambda: [*inf(), texts, str(got.user_requests.get(LIB))])
        else:
            S.check(after == {p: v for p, v in w.inst.items() if v}, 'what is not for this environment is installed',
                    info=lambda: [*inf(), texts, after])
    else:
        url = 'https://x.org/lib_x-2-py3-none-any.whl'
        v = S.pick('version at url', [1, 2])
        other = Pkg(NAMES[LIB], v, lambda: [])
        w.repo.urls[url] = w.repo.urls['url:' + url] = other
        S.assume(LIB not in w.user)
        from_there = bool(S.flag('from there'))
        if from_there:
            S.assume(w.inst[LIB] == v)
            w.site.installed_package(LIB).user_request = Dependency.parse(f'lib-x @ {url}')
        S.assume(w.met({**w.inst, LIB: v}))
        # only what can stay as it is, or be updated
        try:
            got = S.bounded(lambda: w.target.plan_installation([Dependency.parse(f'Lib.X @ {url}')], w.repo), 100000)
        except UnsolvableProblemException:
            # requirements by version and by url on one package: not comparable
            S.reach('refused')
            return
        ops = {p.name_key: (op, p) for p, op in got.compute_operations_for_target().items()}
        S.reach('planned')
        op, p = ops[LIB]
        if from_there:
            S.check(op is PackageOperation.SKIP or p is not other, 'a package is installed again from the same url', info=inf)
        else:
            S.check(p is other and op is (PackageOperation.UPDATE if w.inst[LIB] else PackageOperation.INSTALL),
                    'a package is not installed from its url', info=lambda: [*inf(), str(op), str(p)])


def cases(tier):
    deep = tier == 'thorough'
    out = []
    chain = [(APP, LIB), (LIB, UTIL)]
    for i, (text, _, _) in enumerate(REQUESTS):
        if not deep and i in (2, 4, 5):
            continue
        out.append(Case(f'install {text}', plan, dict(edges=chain, requests=[i]), f'site and repository of three packages, {text}',
                        reach=('planned',), timeout=800 if deep else 300, weight=8, best_effort=True))
    out.append(Case('overridden', plan, dict(edges=chain[:1], requests=[3], over=True), 'the dependency on lib.x is overridden',
                    reach=('planned',), timeout=300, weight=8))
    for kind, r in (('unknown', 'refused'), ('several', 'planned'), ('url', 'planned')):
        out.append(Case(kind, special, dict(kind=kind), f'{kind}, with two packages', reach=(r,), timeout=300, weight=4))
    for i, u in ((0, [['Lib-X'], ['lib_x', 'util']]), (3, [['my-app']])):
        out.append(Case(f'update {REQUESTS[i][0]}', plan, dict(edges=chain, requests=[i], updates=u),
                        f'{REQUESTS[i][0]} with updates of {u}', reach=('planned',), timeout=800 if deep else 300, weight=8, best_effort=True))
    if deep:
        for i in (0, 3, 5):
            out.append(Case(f'cycle {REQUESTS[i][0]}', plan, dict(edges=list(DEPS), requests=[i]), 'with a dependency cycle',
                            reach=('planned',), timeout=2000, weight=12, best_effort=True))
    return out
