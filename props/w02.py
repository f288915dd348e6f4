"""W02: of the artifacts of a package, the best one that can be used is installed, and its metadata counts."""
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.source_distribution import SourceDistribution
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.packages import standard_package as sp
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
from pkm.api.versions.version import StandardVersion
from pkm.api.versions.version_specifiers import StandardVersionRange

from sx.session import Case

PROPERTY = 'W02'
ASSUMPTIONS = ['the scores of tags are arbitrary (W01 decides them); wheels of one file name occur once']


class Broken:
    """what cannot be understood"""

    def __bool__(self):
        return True

    def allows_version(self, v):
        raise ValueError('malformed')


class Env:
    def __init__(self, name, minor, scores):
        self.name, self.interpreter_version, self.scores = name, StandardVersion((3, minor)), scores
        self.markers = {'python_version': '3.9', 'os_name': 'posix', 'sys_platform': 'linux'}

    def compatibility_tag_score(self, tag):
        return self.scores[tag]


class Target:
    def __init__(self, env):
        self.env = env


class P(AbstractPackage):
    def __init__(self, artifacts):
        super().__init__(PackageDescriptor('pkg', StandardVersion((1,))), artifacts)
        self.fetched = []

    def _retrieve_artifact(self, artifact):
        self.fetched.append(artifact.file_name)
        return Path('/nowhere', artifact.file_name)


PYTHONS = [None, '>=3.{}', '<3.{}', 'broken']


def artifacts_of(S, kinds):
    """artifacts with symbolic requirements -> (artifact, tag or None, condition that the interpreter (3, minor) is allowed)"""
    out = []
    for i, kind in enumerate(kinds):
        name = f'pkg-1-{f"{i}-" if kind == "built" else ""}py3-none-plat{i}.whl' if kind != 'source' else f'pkg-1.{i}.tar.gz'
        how = S.pick(f'python{i}', PYTHONS)
        bound = S.int(f'minor{i}', 0, 20) if how not in (None, 'broken') else None
        if how is None:
            spec, ok = None, lambda m: True
        elif how == 'broken':
            spec, ok = Broken(), lambda m: False
        else:
            v = StandardVersion((3, bound))
            spec = StandardVersionRange(v, None, True, False) if how[0] == '>' else StandardVersionRange(None, v, False, False)
            ok = (lambda b: lambda m: m >= b)(bound) if how[0] == '>' else (lambda b: lambda m: m < b)(bound)
        out.append((PackageArtifact(name, spec), f'py3-none-plat{i}' if kind != 'source' else None, ok))
    return out


def env_of(S, name, arts):
    minor = S.int(f'{name} minor', 0, 20)
    scores = {}
    for i, (a, tag, ok) in enumerate(arts):
        if tag:
            scores[tag] = S.int(f'{name} score{i}', 0, 50) if S.flag(f'{name} compatible{i}') else None
    return Env(name, minor, scores), minor


def best(S, kinds):
    S.patch(sp, 'print', lambda *a, **k: None)
    arts = artifacts_of(S, kinds)
    env, minor = env_of(S, 'env', arts)
    p = P([a for a, _, _ in arts])
    got = p.best_artifact_for(env)
    S.check(p.is_compatible_with(env) == (got is not None), 'compatibility is not that there is an artifact')
    inf = lambda: [[a.file_name for a, _, _ in arts], got and got.file_name, [str(a.requires_python) for a, _, _ in arts], env.scores]
    S.trace(got and got.file_name)
    wheels = [(a, env.scores[tag], ok(minor)) for a, tag, ok in arts if tag and env.scores[tag] is not None]
    sources = [(a, ok(minor)) for a, tag, ok in arts if not tag]
    if got is None:
        S.reach('nothing')
        S.check(S.not_(S.any([ok for *_, ok in wheels] + [ok for *_, ok in sources])), 'an artifact that can be used is not found', info=inf)
    elif got.is_binary():
        S.reach('wheel')
        mine = [(s, ok) for a, s, ok in wheels if a is got]
        S.check(len(mine) == 1 and mine[0][1], 'an artifact that cannot be used is taken', info=inf)
        if mine:
            S.check(S.all([S.any([S.not_(ok), s <= mine[0][0]]) for _, s, ok in wheels]), 'a better wheel is not taken', info=inf)
    else:
        S.reach('source')
        S.check(S.any([ok for a, ok in sources if a is got]), 'an artifact that cannot be used is taken', info=inf)
        S.check(S.not_(S.any([ok for *_, ok in wheels])), 'the sources are taken although there is a wheel', info=inf)


def used(S, n, kinds):
    """installing and asking for requirements, in environments that differ, in any order"""
    S.patch(sp, 'print', lambda *a, **k: None)
    arts = [(PackageArtifact(f'pkg-1-py3-none-plat{i}.whl' if k != 'source' else 'pkg-1.tar.gz'), f'py3-none-plat{i}' if k != 'source' else None,
             lambda m: True) for i, k in enumerate(kinds)]
    envs = {}
    for name in ('first', 'second'):
        envs[name] = Env(name, 9, {tag: S.pick(f'{name} {tag}', [None, 1 + i]) for i, (_, tag, _) in enumerate(arts) if tag})
    p = P([a for a, _, _ in arts])
    S.assume(all(p.is_compatible_with(e) for e in envs.values()))
    log = []

    class Info:
        def __init__(self, file):
            self.dependencies = [Dependency.parse(f'needs-{file.replace(".", "-")}'), Dependency.parse('other; os_name == "nt"'),
                                 Dependency.parse('extra-lib; extra == "x"')]

    for cls, kind in ((WheelDistribution, 'wheel'), (SourceDistribution, 'source')):
        S.patch(cls, '__init__', lambda self, d, path, *a: self.__dict__.update(file=path.name, desc=d))
        S.patch(cls, 'extract_metadata', (lambda k: lambda self, env=None: (log.append((k, self.file)), Info(Path(self.file)  # noqa
                                                                           .name))[1])(kind))
        S.patch(cls, 'install_to', (lambda k: lambda self, target, request=None, info=None: log.append(
            (k, self.file, target.env.name, request, info.store_mode)))(kind))
    for i in range(n):
        env = envs[S.pick(f'env{i}', ['first', 'second'])]
        want = max((s, a.file_name) for a, tag, _ in arts if tag and (s := env.scores[tag]) is not None)[1] \
            if any(v is not None for v in env.scores.values()) else 'pkg-1.tar.gz'
        if S.flag(f'install{i}'):
            mode = S.pick(f'mode{i}', [StoreMode.AUTO, StoreMode.EDITABLE])
            request = Dependency.parse('pkg>=1')
            p.install_to(Target(env), request, mode)
            S.check(log[-1][:4] == ('wheel' if want.endswith('whl') else 'source', want, env.name, request),
                    'another artifact is installed', info=lambda: [want, log])
            S.check(log[-1][4] == (StoreMode.COPY if mode == StoreMode.AUTO else mode), 'the store mode is not used', info=lambda: log)
            S.reach('installed')
        else:
            extras = S.pick(f'extras{i}', [None, ['x']])
            got = [d.package_name for d in p.dependencies(Target(env), extras)]
            S.check(got == [f'needs-{want.replace(".", "-")}', *(['extra-lib'] if extras else [])],
                    'the requirements are those of another artifact', info=lambda: [want, got, extras])
            S.reach('asked')
        S.trace(want)
    S.check(len(p.fetched) == len(set(p.fetched)), 'an artifact is fetched twice', info=lambda: p.fetched)


def cases(tier):
    deep = tier == 'thorough'
    T = 1500 if deep else 300
    out = [Case('best ' + ' '.join(k), best, dict(kinds=k), f'artifacts {k}, any scores, python requirements and interpreters',
                reach=('nothing', 'wheel', 'source') if 'source' in k else ('nothing', 'wheel'), timeout=T, weight=6, best_effort=deep)
           for k in ([('wheel', 'built', 'source'), ('source', 'wheel', 'source'), ('wheel', 'wheel')] +
                     ([('wheel', 'source', 'built', 'wheel')] if deep else []))]
    out.append(Case('used', used, dict(n=3 if deep else 2, kinds=('wheel', 'source', 'wheel')), 'two environments, any uses of the package',
                    reach=('installed', 'asked'), timeout=T, weight=4))
    return out
