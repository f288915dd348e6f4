"""In-memory packages, repositories and environments for the harnesses of the resolver and the installer."""
import io
import sys
import warnings

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import StandardVersion, Version
from pkm.resolution import dependency_resolver, pubgrub


def V(i):
    return i if isinstance(i, Version) else StandardVersion((i,))


class Lazy:
    """a promise whose work is done by whoever asks for the result: what the thread pool would run concurrently"""

    def __init__(self, f):
        self.f, self.done = f, False

    def result(self, wait=True):
        if not self.done:
            self.value, self.done = self.f(), True
        return self.value

    @classmethod
    def execute(cls, executor, f, *a, **k):
        return cls(lambda: f(*a, **k))


def quiet(S):
    S.patch(pubgrub, 'print', lambda *a, **k: None)
    S.patch(sys, 'stderr', io.StringIO())
    S.patch(warnings, 'warn', lambda *a, **k: None)
    S.patch(dependency_resolver, 'Promise', Lazy)


class Env:
    markers = {'python_version': '3.9', 'sys_platform': 'linux', 'os_name': 'posix'}
    markers_hash = 'this'
    interpreter_version = StandardVersion((3, 9, 1))


class Target:
    def __init__(self):
        self.env = Env()


class Req:
    """a requirement: its text and, independently of the text, what it means"""

    def __init__(self, text, key, ok=lambda v: True, extras=(), when=lambda extras: True):
        self.text, self.key, self.ok, self.extras, self.when = text, key, ok, frozenset(extras), when

    def parse(self):
        return Dependency.parse(self.text)


class Pkg(Package):
    def __init__(self, name, version, requires, compatible=lambda: True):
        self._d, self.requires, self.compatible = PackageDescriptor(name, V(version)), requires, compatible

    @property
    def descriptor(self):
        return self._d

    def dependencies(self, target, extras=None):
        return [r.parse() for r in self.requires()]

    def is_compatible_with(self, env):
        return self.compatible()

    def install_to(self, *a, **k):
        raise NotImplementedError


class Repo(AbstractRepository):
    """packages: name key -> packages, in the order of preference"""

    def __init__(self, packages):
        super().__init__('world')
        self.packages, self.urls = packages, {}

    def _do_match(self, dependency, env):
        if url := dependency.required_url():
            return [self.urls[str(url)]] if str(url) in self.urls else []
        return [p for p in self.packages.get(dependency.package_name_key, ()) if
                dependency.version_spec.allows_version(p.version)]
