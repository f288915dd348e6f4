"""N01: two spellings of a package name denote the same package exactly when PEP 503 normalizes them alike."""
import re

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import StandardVersion, Version

from sx.session import Case

PROPERTY = 'N01'
ASSUMPTIONS = ['names are made of ASCII letters, digits, periods, underscores and hyphens and start and end with a letter '
               'or digit, as the core metadata specification requires; the alphabets stand for their character classes']


def name(S, n, lo, hi, alphabet='aZ9-_.'):
    t = S.str(n, alphabet, lo, hi)
    S.assume(S.not_(S.any([t[0] == c for c in '-_.'])))
    S.assume(S.not_(S.any([t[-1] == c for c in '-_.'])))
    return t


def pep503(t):
    return re.sub(r'[-_.]+', '-', t).lower()


def keys(S, la, lb):
    a, b = name(S, 'a', la, la, 'aAb-_.'), name(S, 'b', lb, lb, 'aAb-_.')
    same = bool(PackageDescriptor.package_name_key(a) == PackageDescriptor.package_name_key(b))
    S.trace(same)
    S.reach('same' if same else 'different')
    want = pep503(a) == pep503(b)
    S.check(want if same else S.not_(want), 'package names are not identified as PEP 503 does', info=lambda: [a, b])


def one(S, n):
    a = name(S, 'a', n, n)
    key = PackageDescriptor.package_name_key(a)
    S.trace(key)
    S.reach('keyed')
    S.check(key.replace('_', '-') == pep503(a), 'the key of a name is not its PEP 503 form', info=lambda: [a, key])
    S.check(PackageDescriptor.package_name_key(key) == key, 'the key of a key differs', info=lambda: [a, key])
    d = PackageDescriptor(a, StandardVersion((1,)))
    S.check(d.name_key == key, 'a package does not carry the key of its name', info=lambda: [a, d.name, d.name_key])
    dep = Dependency.parse(a)
    S.check(dep.package_name_key == key, 'a dependency does not carry the key of its name', info=lambda: [a, str(dep)])
    s = d.expected_src_package_name
    S.check(S.all([S.any([c == x for x in 'aZ9_']) for c in s]),
            'the source package name is not an identifier', info=lambda: [a, s])
    w = PackageDescriptor.read(d.write())
    S.check(w.version == d.version and w.name_key == key, 'a written and read descriptor differs', info=lambda: [a, w])


def illegal(S, n):
    t = S.str('t', 'aZ9-_. !$', 1, n)
    S.assume(S.any([c == x for c in t for x in ' !$']))
    S.assume(S.any([c == x for c in t for x in 'aZ9']))
    norm = PackageDescriptor.normalize_name(t)
    S.trace(norm)
    S.reach('cleaned')
    S.check(S.all([S.any([c == x for x in 'aZ9-_.']) for c in norm]), 'a normalized name keeps illegal characters',
            info=lambda: [t, norm])
    S.check(PackageDescriptor.normalize_name(norm) == norm, 'normalizing twice differs', info=lambda: [t, norm])


def dist_name(S, n):
    tail = S.pick('tail', ['-py3-none-any.whl', '.tar.gz', '.zip', '-1-cp39-abi3-linux_x86_64.whl'])
    a = name(S, 'a', 1, n, 'aZ9_.' if tail[0] == '-' else 'aZ9_.-')
    v = S.str('v', '019', 1, 1) + S.pick('v2', ['', '.0', '.10', 'a1', '.post1', '+cu1'])
    d = PackageDescriptor.from_dist_name(a + '-' + v + tail)
    S.trace(d.name)
    S.reach('read')
    S.check(d.name_key == PackageDescriptor.package_name_key(a), 'a distribution file name gives another package',
            info=lambda: [a, d])
    S.check(d.version == Version.parse(v), 'a distribution file name gives another version', info=lambda: [v, d])


def cases(tier):
    deep = tier == 'thorough'
    m = 5 if deep else 4
    out = []
    for la in range(1, m + 1):
        for lb in range(la, m + 1):
            out.append(Case(f'keys_{la}_{lb}', keys, dict(la=la, lb=lb),
                            f'pairs of names of {la} and {lb} characters over aAb-_.',
                            reach=('same', 'different') if la > 2 or la == lb else ('different',), weight=la + lb,
                            timeout=1500 if deep else 240, best_effort=deep))
    for n in range(1, (8 if deep else 6)):
        out.append(Case(f'one_{n}', one, dict(n=n), f'names of {n} characters over aZ9-_.', reach=('keyed',),
                        timeout=1500 if deep else 240, best_effort=deep))
    for n in range(2, (6 if deep else 5)):
        out.append(Case(f'illegal_{n}', illegal, dict(n=n), f'texts of at most {n} characters with illegal ones',
                        reach=('cleaned',)))
    out.append(Case('dist_name', dist_name, dict(n=4 if deep else 3),
                    'distribution file names: name of at most 4 characters, a version, a file suffix', reach=('read',)))
    return out
