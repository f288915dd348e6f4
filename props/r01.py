"""R01: dependency resolution is sound, complete and terminates."""
import io
import sys
import warnings
from itertools import product

from pkm.api.versions.version import StandardVersion
from pkm.api.versions.version_specifiers import AllowAllVersions, VersionMatch, VersionSpecifier
from pkm.resolution import pubgrub
from pkm.resolution.pubgrub import MalformedPackageException, Problem, Solver, Term, UnsolvableProblemException

from sx.session import Case, Diverged

PROPERTY = 'R01'
ASSUMPTIONS = ['universes of the stated sizes: packages, versions per package, and dependency constraints drawn from the '
               'listed set; which constraint (or none) each version puts on each package is symbolic and is fixed only '
               'when the solver asks for it']


def V(i):
    return i if isinstance(i, StandardVersion) else StandardVersion((i,))


X = {'1': V(1), '1+y': StandardVersion((1,), local_label='y'), '1a1': StandardVersion((1,), pre_release=('a', 1)), '1+x': StandardVersion((1,), local_label='x'), '1.post1': StandardVersion((1,), post_release=1),
     '2a1': StandardVersion((2,), pre_release=('a', 1)), '2': V(2)}


# name -> (what it admits out of versions 1..9, the specifier text); None is no dependency
OPTS = {
    'none': None, '*': lambda v: True, '==1': lambda v: v == 1, '==2': lambda v: v == 2, '==3': lambda v: v == 3,
    '>=2': lambda v: v >= 2, '<=2': lambda v: v <= 2, '<2': lambda v: v < 2, '>9': lambda v: False,
    '!=2': lambda v: v != 2, '==1,==2': lambda v: False, '>1,<3': lambda v: 1 < v < 3, '!=1': lambda v: v != 1,
}


class Universe(Problem):
    def __init__(self, S, packages, order, opts, deps, malformed=(), versions=None):
        """packages: name -> number of versions; deps: package -> packages it may depend on;
        versions: package -> its versions in their order, where they are not 1, 2, 3..."""
        self.S, self.packages, self.opts, self.versions = S, packages, opts, versions or {}
        self.order = order
        self.var = {}
        self.bad = {}
        for p, n in packages.items():
            for v in range(1, n + 1):
                for q in deps[p]:
                    self.var[p, v, q] = S.int(f'{p}{v}->{q}', 0, len(opts[p, q]) - 1)
                if p in malformed:
                    self.bad[p, v] = S.flag(f'{p}{v}.malformed')
        self.spec = {o: (AllowAllVersions if o == '*' else VersionSpecifier.parse(o)) for os in opts.values() for o in os
                     if o != 'none'}

    def get_dependencies(self, package, version):
        v = self.index(package, version)
        if (package, v) in self.bad and self.bad[package, v]:
            raise MalformedPackageException(f'{package} {v}')
        out = []
        for (p, w, q), x in self.var.items():
            if p == package and w == v:
                o = self.opts[p, q][self.S.conc(x)]
                if o != 'none':
                    out.append(Term(q, self.spec[o]))
        return out

    def version(self, package, i):
        return X[self.versions[package][i - 1]] if package in self.versions else V(i)

    def index(self, package, version):
        return next(i for i in range(1, self.packages[package] + 1) if str(self.version(package, i)) == str(version))

    def get_versions(self, package):
        n = self.packages[package]
        vs = [self.version(package, i) for i in range(1, n + 1)]
        return vs if self.order == 'old' else vs[::-1]

    def has_version(self, package, version):
        return False

    def allowed(self, x, p, q, ver):
        """the condition that p's dependency x on q accepts version ver (0 is: not installed)"""
        ok = []
        for i, o in enumerate(self.opts[p, q]):
            if o == 'none' or (ver and (self.spec[o].allows_version(self.version(q, ver)) if q in self.versions
                                        else OPTS[o](ver))):
                ok.append(x == i)
        return self.S.any(ok)

    def valid(self, choice):
        """the condition that this choice of versions is a solution"""
        conds = []
        for (p, v, q), x in self.var.items():
            if choice.get(p) == v:
                conds.append(self.allowed(x, p, q, choice.get(q, 0)))
        for (p, v), b in self.bad.items():
            if choice.get(p) == v:
                conds.append(self.S.not_(b))
        return self.S.all(conds)


def quiet(S):
    S.patch(pubgrub, 'print', lambda *a, **k: None)
    S.patch(sys, 'stderr', io.StringIO())
    S.patch(warnings, 'warn', lambda *a, **k: None)


def resolve(S, packages, opts, deps, order='new', malformed=(), versions=None):
    quiet(S)
    u = Universe(S, dict(packages, root=1), order, opts, deps, malformed, versions)
    solver = Solver(u, 'root')
    try:
        solution = S.bounded(solver.solve, 60000)
    except UnsolvableProblemException as e:
        S.reach('no solution')
        str(e)  # the explanation can be produced
        names = sorted(packages)
        options = [c for c in (dict(zip(names, vs)) for vs in product(*[range(packages[n] + 1) for n in names]))]
        exists = S.any([u.valid(dict({k: v for k, v in c.items() if v}, root=1)) for c in options])
        S.check(S.not_(exists), 'resolution fails although a solution exists',
                info=lambda: [c for c in options if u.valid(dict({k: v for k, v in c.items() if v}, root=1))][:2])
        return
    except Diverged:
        S.check(False, 'resolution does not come to an end')
        return
    S.reach('solved')
    got = {p: u.index(p, v) for p, v in solution.items()}
    S.trace(got)
    S.check(got.get('root') == 1, 'the root is not in the solution', info=lambda: [got])
    S.check(u.valid(got), 'the resolution breaks a dependency', info=lambda: [got])
    need, todo = {'root'}, ['root']
    while todo:
        p = todo.pop()
        for (a, w, q), x in u.var.items():
            if a == p and w == got[p] and u.opts[p, q][S.conc(x)] != 'none' and q not in need:
                need.add(q)
                todo.append(q)
    S.check(set(got) == need, 'the resolution contains packages that nothing requires', info=lambda: [got, sorted(need)])
    # the preferred versions are chosen whenever they work together
    first = {}
    todo, works = ['root'], True
    while todo:
        p = todo.pop()
        if p in first:
            continue
        first[p] = 1 if p == 'root' or order == 'old' else packages[p]
        for (a, w, q), x in u.var.items():
            if a == p and w == first[p] and (p in got and got[p] == w) and u.opts[p, q][S.conc(x)] != 'none':
                todo.append(q)
    if got != first:
        S.check(S.not_(u.valid(first)), 'a less preferred version is chosen although all the preferred ones fit',
                info=lambda: [got, first])


def ordering(S, versions, opts, expect, finding, order):
    """releases that an ordering specifier and its complement both leave out (post releases, local releases)"""
    quiet(S)
    u = Universe(S, dict(a=2, b=len(versions), root=1), order, opts, {'root': ['a', 'b'], 'a': ['b'], 'b': []},
                 versions={'b': versions})
    try:
        solution = S.bounded(Solver(u, 'root').solve, 60000)
    except (UnsolvableProblemException, AssertionError, Diverged) as e:
        got, ok = type(e).__name__, isinstance(e, UnsolvableProblemException) and not expect
    else:
        got = {p: u.index(p, v) for p, v in solution.items()}
        ok = u.valid(got)
    S.reach('ended')
    S.trace(got)
    S.check(ok, 'the resolution is wrong about a post or local release', known={finding: True}, info=lambda: [got])


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(name, packages, edges, order='new', malformed=(), timeout=300, weight=2, versions=None):
        """edges: {package: {dependency: [options]}}"""
        deps = {p: list(edges.get(p, {})) for p in list(packages) + ['root']}
        opts = {(p, q): o for p, m in edges.items() for q, o in m.items()}
        out.append(Case(name, resolve, dict(packages=packages, opts=opts, deps=deps, order=order, malformed=malformed, versions=versions),
                        bounds=f'versions {packages}, constraints { {f"{p}->{q}": o for (p, q), o in opts.items()} }, '
                               f'{order} versions preferred' + (f', {versions}' if versions else '') + (f', malformed {malformed}' if malformed else ''),
                        reach=('solved', 'no solution'), timeout=timeout, weight=weight))

    n2 = ['none', '*', '==1', '==2']
    n3 = ['none', '*', '==1', '==3', '<=2', '!=2']
    for order in ('new', 'old'):
        # a diamond and a chain with conflicts
        add(f'three packages, two versions, {order}', {'a': 2, 'b': 2, 'c': 2},
            {'root': {'a': ['*'], 'b': ['none', '*', '==1']}, 'a': {'b': n2, 'c': n2[:]}, 'b': {'c': n2}, 'c': {'a': ['none', '==1']}},
            order, weight=8)
        add(f'two packages, three versions, cyclic, {order}', {'a': 3, 'b': 3},
            {'root': {'a': ['*', '>=2', '==1'], 'b': ['none', '*']}, 'a': {'b': ['none', '==1', '>=2', '!=2']}, 'b': {'a': ['none', '==1', '<=2']}},
            order, weight=8)
        add(f'unavailable versions, {order}', {'a': 2, 'b': 2, 'c': 1},
            {'root': {'a': ['*', '==1'], 'b': ['none', '*', '!=2']}, 'a': {'b': ['none', '==2', '>9', '<2'], 'c': ['none', '*', '>9']},
             'b': {'c': ['none', '==1', '>9', '!=1']}}, order, weight=6)
        add(f'malformed versions, {order}', {'a': 3, 'b': 2},
            {'root': {'a': ['*', '<=2', '!=2'], 'b': ['none', '*', '==1']}, 'a': {'b': ['none', '==1', '==2']}, 'b': {}}, order,
            malformed=('a', 'b'), weight=4)
        add(f'contradicting constraints, {order}', {'a': 2, 'b': 2, 'c': 1},
            {'root': {'a': ['*', '<2'], 'b': ['none', '==1,==2', '!=1']}, 'a': {'b': ['none', '==1,==2', '*'], 'c': ['*', '==1,==2']},
             'b': {'c': ['none', '==1,==2'], 'a': ['none', '>1,<3']}}, order, weight=4)
        add(f'pre releases, {order}', {'a': 2, 'b': 4},
            {'root': {'a': ['*'], 'b': ['none', '*', '>1', '<2', '==1', '!=1']},
             'a': {'b': ['none', '*', '==1', '==1a1', '>=1', '!=1', '<=1', '>1,<2']},
             'b': {}}, order, weight=4, versions={'b': ['1a1', '1', '2a1', '2']})
        add(f'pre releases of a depending package, {order}', {'a': 1, 'b': 4},
            {'root': {'a': ['*'], 'b': ['none', '*', '>1', '<2', '==1', '!=1']},
             'a': {}, 'b': {'a': ['none', '==1', '==2']}}, order, weight=4,
            versions={'b': ['1a1', '1', '2a1', '2']})
        add(f'local releases, {order}', {'a': 2, 'b': 3},
            {'root': {'a': ['*'], 'b': ['none', '*', '==1+x', '!=1+x', '>1']},
             'a': {'b': ['none', '==1+y', '!=1+x', '!=1+y', '==1+x', '<2']}, 'b': {}}, order, weight=3,
            versions={'b': ['1+x', '1+y', '2']})
        add(f'local releases of a depending package, {order}', {'a': 2, 'b': 3},
            {'root': {'a': ['*'], 'b': ['none', '*', '>1', '<2', '==1+x', '!=1+x']},
             'a': {}, 'b': {'a': ['none', '==1', '==2', '==3']}}, order, weight=4, versions={'b': ['1+x', '1+y', '2']})
        add(f'self dependencies, {order}', {'a': 2, 'b': 2},
            {'root': {'a': ['*']}, 'a': {'a': ['none', '*', '==1', '==2'], 'b': ['none', '*', '==1']}, 'b': {'a': ['none', '==2'], 'b': ['none', '==1']}},
            order, weight=4)
    for name, versions, c, expect, finding in (('post', ['1.post1'], '>=1', True, 'R01-post'),
                                               ('local', ['1+x', '2'], '<=1', False, 'R01-local')):
        opts = {('root', 'a'): ['*'], ('root', 'b'): ['*' if name == 'post' else '==1'], ('a', 'b'): [c]}
        out.append(Case(f'a {name} release outside an ordering constraint', ordering,
                        dict(versions=versions, opts=opts, expect=expect, finding=finding, order='old'),
                        bounds=f'one universe: b {versions}, {opts}', reach=('ended',)))
    if deep:
        for order in ('new', 'old'):
            add(f'four packages, {order}', {'a': 2, 'b': 2, 'c': 2, 'd': 2},
                {'root': {'a': ['*'], 'b': ['*', '==1']}, 'a': {'b': n2[:3], 'c': n2[1:], 'd': n2[:2]},
                 'b': {'c': ['none', '==1', '==2'], 'd': ['none', '==1']}, 'c': {'d': ['none', '==1', '==2']},
                 'd': {'a': ['none', '==1'], 'b': ['none']}}, order, timeout=3000, weight=30)
            add(f'three versions, {order}', {'a': 3, 'b': 3, 'c': 2},
                {'root': {'a': ['*'], 'b': ['none', '<=2', '!=2']}, 'a': {'b': n3[:4], 'c': ['none', '==1']},
                 'b': {'c': ['none', '==1', '==2'], 'a': ['none', '>=2']}, 'c': {'b': ['none', '!=2']}}, order, timeout=3000, weight=30)
    return out
