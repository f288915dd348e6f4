"""R03: the lock - what is locked is preferred, nothing else changes, and locks survive updates, saving and loading."""
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import Version
from pkm.resolution.packages_lock import LockPrioritizingRepository, PackagesLock, _LockedVersion

from props._world import Env, Pkg, Repo
from sx.session import Case

PROPERTY = 'R03'
ASSUMPTIONS = ['an environment has one version of a package']

SPELLINGS = ['My.Pkg', 'my_pkg', 'MY-pkg']


class Site:
    def __init__(self, packages):
        self.packages = packages

    def installed_packages(self):
        return list(self.packages)


def env_of(hash, packages=()):
    e = Env()
    e.markers_hash, e.site_packages = hash, Site(packages)
    return e


class Lock:
    """what a lock has to know: (environment, package) -> version, in the order it was learned"""

    def __init__(self):
        self.rows = []

    def add(self, env, name, version):
        self.rows.append((env, PackageDescriptor.package_name_key(name), str(version)))

    def update(self, env, packages):
        self.rows = [r for r in self.rows if r[0] != env]
        for p in packages:
            self.add(env, p.name, p.version)

    def unlock(self, names):
        keys = {PackageDescriptor.package_name_key(n) for n in names}
        self.rows = [r for r in self.rows if r[1] not in keys]

    def prefer(self, env, name, versions):
        """the order in which versions, given from the best on, have to be tried; those of other environments in any order"""
        key = PackageDescriptor.package_name_key(name)
        mine = [v for e, k, v in self.rows if k == key and e == env]
        others = {v for e, k, v in self.rows if k == key and e != env and v not in mine}
        return [[v for v in versions if v in mine], [v for v in versions if v in others],
                [v for v in versions if v not in mine and v not in others]]


VERSIONS = ['3.0', '2.0', '2.0a1', '1.0']


def order(S, n, deep):
    """any rows in the lock, any packages in the repository"""
    model, rows = Lock(), []
    for i in range(S.conc(S.int('locked', 0, n))):
        env = S.pick(f'env{i}', ['this', 'other', 'third'])
        v = S.pick(f'version{i}', ['3.0', '2.0', '1.0', '0.5'] if deep else ['2.0', '1.0'])
        name = S.pick(f'name{i}', [SPELLINGS[i % 2], 'other'] if i == 0 else [SPELLINGS[i % 2]])
        key = PackageDescriptor.package_name_key(name)
        S.assume(not any(r[0] == env and r[1] == key for r in model.rows))
        rows.append(_LockedVersion(env, PackageDescriptor(name, Version.parse(v))))
        model.add(env, name, v)
    offered = [v for v in VERSIONS if S.flag(f'offers {v}')]
    ok = {v: bool(S.flag(f'{v} fits')) if v == '2.0' else True for v in offered}
    name = S.pick('offered as', SPELLINGS[1:])
    packages = [Pkg(name, Version.parse(v), lambda: [], (lambda v: lambda: ok[v])(v)) for v in offered]
    repo = Repo({'my_pkg': packages})
    lock = PackagesLock(rows)
    text = S.pick('asked', ['my-pkg', 'My.Pkg>=1a0'])
    dep = Dependency.parse(text)
    env = env_of('this')
    before = repo.match(dep, env)
    got = [str(p.version) for p in LockPrioritizingRepository('lock', repo, lock).match(dep, env)]
    first, second, rest = model.prefer('this', 'my-pkg', [str(p.version) for p in before])
    inf = lambda: [model.rows, offered, text, got, [first, second, rest]]
    S.trace(got)
    S.check(sorted(got) == sorted(str(p.version) for p in before), 'the lock adds or removes packages', info=inf)
    S.check(got[:len(first)] == first, 'what is locked for the environment is not preferred', info=inf)
    S.check(sorted(got[len(first):len(first) + len(second)]) == sorted(second), 'what is locked for others is not preferred over the rest',
            info=inf)
    S.check(got[len(first) + len(second):] == rest, 'the order of what is not locked changes', info=inf)
    S.reach('locked' if first else 'free')
    listed = [str(d.version) for d in lock.locked_versions(env, text.split('>')[0])]
    mine = [v for e, k, v in model.rows if k == 'my_pkg' and e == 'this']
    S.check(listed[:len(mine)] == mine and sorted(listed) == sorted(v for _, k, v in model.rows if k == 'my_pkg'),
            'the locked versions are others', info=lambda: [listed, *inf()])


def history(S, n, deep):
    """locking, unlocking, saving and loading in any order"""
    model = Lock()
    file = S.scratch() / 'lock.toml'
    lock = PackagesLock(lock_file=file)
    done = []
    for i in range(n):
        op = S.pick(f'op{i}', ['lock', 'unlock', 'reload'])
        done.append(op)
        if op == 'lock':
            env = S.pick(f'env{i}', ['this', 'other'])
            packages = []
            if v := S.pick(f'has{i}', [None, '2.0', '1.0+local.1', *(['2a1'] if deep else [])]):
                packages.append(Pkg(S.pick(f'spelled{i}', SPELLINGS[:2]), Version.parse(v), lambda: []))
            if (i == 0 or deep) and S.flag(f'third{i}'):
                packages.append(Pkg('third', Version.parse('3'), lambda: []))
            lock.update_lock(env_of(env, packages))
            model.update(env, packages)
        elif op == 'unlock':
            names = S.pick(f'names{i}', [('MY.PKG',), ('third', 'my-pkg'), ('nosuch',)])
            S.check(lock.unlock_packages(names) is lock, 'unlocking gives another lock')
            model.unlock(names)
        elif op == 'save':
            lock.save()
        else:
            lock.save()
            lock = PackagesLock.load(file)
    for final in (0, 1):
        if final:
            lock.save()
            lock = PackagesLock.load(file)
        for env in ('this', 'other'):
            e = env_of(env)
            got = sorted((d.name_key, str(d.version)) for d in lock.env_specific_locks(e))
            S.check(got == sorted((k, v) for w, k, v in model.rows if w == env), 'the lock of an environment is another one',
                    info=lambda: [done, env, got, model.rows, final])
            S.trace(got)
            for key in ('My-Pkg', 'third'):
                k = PackageDescriptor.package_name_key(key)
                got2 = [str(d.version) for d in lock.locked_versions(e, key)]
                mine = [v for w, x, v in model.rows if x == k and w == env]
                S.check(got2[:len(mine)] == mine and sorted(got2) == sorted(v for _, x, v in model.rows if x == k),
                        'the locked versions are others', info=lambda: [done, env, key, got2, model.rows, final])
    S.reach('done')


def cases(tier):
    deep = tier == 'thorough'
    T = 1500 if deep else 300
    return [Case('order', order, dict(n=3 if deep else 2, deep=deep), 'up to that many locked versions and any of four offered ones', reach=('locked', 'free'),
                 timeout=T, weight=8, best_effort=deep),
            Case('history', history, dict(n=4 if deep else 3, deep=deep), 'sequences of locking, unlocking, saving and loading', reach=('done',),
                 timeout=T, sandbox=True, weight=8, best_effort=deep)]
