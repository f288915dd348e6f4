"""R02: requirements of real packages - spellings, extras, markers, overrides - are resolved as they are meant."""
from itertools import product

from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import NamedVersion, StandardVersion
from pkm.resolution.dependency_resolver import resolve_dependencies
from pkm.resolution.pubgrub import UnsolvableProblemException

from props._world import Env, Pkg, Repo, Req, Target, quiet
from sx.session import Case, Diverged

PROPERTY = 'R02'
ASSUMPTIONS = ['two packages of two versions behind a root package, requirements drawn from the listed texts']

NONE = Req('', None)


def always(extras):
    return True


def x(extras):
    return 'x' in extras


def y(extras):
    return 'y' in extras


def never(extras):
    return False


LIB, UTIL = 'my_lib', 'util'
OPTS = {
    'spelling': dict(
        app=[[Req('my-lib', LIB), Req('My_Lib', LIB), Req('MY.LIB>=2', LIB, lambda v: v >= 2), Req('my_lib<2', LIB, lambda v: v < 2)],
             [NONE, Req('my.lib==1', LIB, lambda v: v == 1), Req('UTIL', UTIL), Req('Util!=2', UTIL, lambda v: v != 2)]],
        lib=[[NONE, Req('util', UTIL), Req('Util<2', UTIL, lambda v: v < 2), Req('UTIL==2', UTIL, lambda v: v == 2)]],
        util=[[NONE, Req('My-Lib', LIB), Req('my.lib<2', LIB, lambda v: v < 2)]]),
    'extras': dict(
        app=[[Req('my-lib', LIB), Req('my-lib[x]', LIB, extras='x'), Req('my-lib [ x , y ]', LIB, extras='xy'),
              Req('my-lib[y]<2', LIB, lambda v: v < 2, 'y')],
             [NONE, Req('my-lib[x]', LIB, extras='x'), Req('my-lib[y,x]', LIB, extras='xy'), Req('util<2', UTIL, lambda v: v < 2)]],
        lib=[[NONE, Req('util>=2; extra == "x"', UTIL, lambda v: v >= 2, when=x), Req('util', UTIL)],
             [NONE, Req("util<2; extra=='y'", UTIL, lambda v: v < 2, when=y)]],
        util=[[NONE, Req('my-lib<2', LIB, lambda v: v < 2), Req('my-lib[x]', LIB, extras='x')]]),
    'markers': dict(
        app=[[Req('my-lib; python_version >= "3"', LIB), Req('my-lib>=2', LIB, lambda v: v >= 2)],
             [NONE, Req('util<2; python_version < "3"', UTIL, lambda v: v < 2, when=never),
              Req('util<2; sys_platform == "linux"', UTIL, lambda v: v < 2), Req('util', UTIL)]],
        lib=[[NONE, Req('util>=2; os_name == "nt"', UTIL, lambda v: v >= 2, when=never),
              Req('util>=2; os_name == "posix"', UTIL, lambda v: v >= 2)]],
        util=[[NONE, Req('missing; os_name == "nt"', 'missing', when=never), Req('missing', 'missing', lambda v: False)]]),
    'direct and extras': dict(
        app=[[Req('my-lib[x]', LIB, extras='x')], [Req('util', UTIL)]], lib=[[NONE]],
        util=[[Req('My.Lib @ https://h/Lib-1.zip', LIB, lambda v: v == 3)]]),
    # 3 is a pre release of 3
    'pre release': dict(app=[[Req('my-lib==3a1', LIB, lambda v: v == 3)]], lib=[[NONE]], util=[[NONE]]),
    # 3 is what the url gives, 4 is the release of an arbitrary name
    'direct': dict(
        app=[[Req('my-lib', LIB), Req('My.Lib @ https://h/Lib-1.zip', LIB, lambda v: v == 3), Req('my-lib===weird', LIB, lambda v: v == 4)],
             [NONE, Req('my-lib[x] @ https://h/Lib-1.zip ; os_name == "posix"', LIB, lambda v: v == 3, 'x'), Req('util', UTIL),
              Req('my-lib>=1', LIB, lambda v: v in (1, 2)), Req('my-lib!=2', LIB, lambda v: v != 2)]],
        lib=[[NONE, Req('util>=2; extra == "x"', UTIL, lambda v: v == 2, when=x)]],
        util=[[NONE, Req('my-lib===weird', LIB, lambda v: v == 4), Req('My.Lib @ https://h/Lib-1.zip', LIB, lambda v: v == 3),
               Req('my-lib @ https://h/lib-1.zip', LIB, lambda v: False)]]),
}


def bind(S, name, slots):
    idx = [S.int(f'{name}.{i}', 0, len(s) - 1) for i, s in enumerate(slots)]

    def requires():
        return [r for r in (s[S.conc(i)] for i, s in zip(idx, slots)) if r is not NONE]

    def truth(extras):
        """(condition, requirement) of everything this may require"""
        return [(i == k, r) for i, s in zip(idx, slots) for k, r in enumerate(s) if r is not NONE and r.when(extras)]

    return requires, truth


def resolve(S, kind, overrides=(), flags=False):
    quiet(S)
    opts = OPTS[kind]
    requires, truth = {}, {}
    bad, off = {}, {}

    def package(name, n, version):
        key = (n, version)
        requires[key], truth[key] = bind(S, f'{n}{version}', opts[n])
        if flags:
            off[key] = S.flag(f'{n}{version}.incompatible')
            bad[key] = S.flag(f'{n}{version}.broken')

        def reqs():
            if flags and bad[key]:
                raise IOError('broken metadata')
            return requires[key]()

        return Pkg(name, version, reqs, (lambda: not bool(off[key])) if flags else (lambda: True))

    app, app_truth = bind(S, 'app', opts['app'])
    repo = Repo({'app': [Pkg('App', 1, app)], LIB: [package('My.Lib', 'lib', 2), package('My.Lib', 'lib', 1)],
                 UTIL: [package('util', 'util', 2), package('util', 'util', 1)]})
    code = {(p.name_key, str(p.version)): p.version.release[0] for ps in repo.packages.values() for p in ps}
    if kind == 'pre release':
        pre = package('My.Lib', 'lib', 3)
        pre._d = PackageDescriptor('My.Lib', StandardVersion((3,), pre_release=('a', 1)))
        repo.packages[LIB].insert(0, pre)
        code[LIB, '3a1'] = 3
    if kind.startswith('direct'):
        url = package('My.Lib', 'lib', 3)
        repo.urls['https://h/Lib-1.zip'] = url
        weird = package('My.Lib', 'lib', 4)
        weird._d = PackageDescriptor('My.Lib', NamedVersion('weird'))
        repo.packages[LIB].append(weird)
        code.update({(LIB, '3'): 3, (LIB, 'weird'): 4})
    over = {}
    if overrides:
        over = overrides[S.pick('override', list(range(len(overrides))))]
    names = {'app': 'app', LIB: 'lib', UTIL: 'util'}

    def needs(choice, key, extras):
        t = app_truth(extras) if key == 'app' else truth[names[key], choice[key]](extras)
        return [(c, over.get(r.key, r)) for c, r in t]

    def valid(choice):
        """the condition that this choice (versions of lib and util, 0: none) meets all that it has to"""
        conds = []
        for key, v in choice.items():
            if v and flags and key != 'app':
                conds += [S.not_(bad[names[key], v]), S.not_(off[names[key], v])]
        # (package, extras) pairs that are required, each under a condition; a few rounds reach all of them
        want = {('app', frozenset()): True}
        for _ in range(4):
            new = dict(want)
            for (key, extras), c in want.items():
                if key not in choice or not choice[key]:
                    continue
                for c2, r in needs(choice, key, extras):
                    k = (r.key, r.extras)
                    both = S.all([c, c2])
                    new[k] = S.any([new[k], both]) if k in new else both
            want = new
        for (key, extras), c in want.items():
            if not choice.get(key):
                conds.append(S.not_(c))
                continue
            for c2, r in needs(choice, key, extras):
                if not (choice.get(r.key) and r.ok(choice[r.key])):
                    conds.append(S.not_(S.all([c, c2])))
        return S.all(conds)

    given = {k: r.parse() for r in over.values() for k in [r.given]} if over else None
    try:
        result = S.bounded(lambda: resolve_dependencies(Req('app', 'app').parse(), Target(), repo, given), 60000)
    except UnsolvableProblemException as e:
        S.reach('no solution')
        str(e)
        options = [dict(app=1, **{LIB: a, UTIL: b}) for a, b in product(range(3 if kind in ('spelling', 'extras', 'markers') else 5 if kind.startswith('direct') else 4), range(3))]
        S.check(S.not_(S.any([valid(o) for o in options])), 'resolution fails although a solution exists',
                known={'R02-direct-extras': kind == 'direct and extras', 'R02-pre': kind == 'pre release'},
                info=lambda: [o for o in options if valid(o)])
        return
    except Diverged:
        S.check(False, 'resolution does not come to an end')
        return
    S.reach('solved')
    keys = [PackageDescriptor.package_name_key(p.name) for p in result]
    S.trace([str(p.descriptor.version) for p in result], keys)
    S.check(len(set(keys)) == len(keys), 'a package is chosen twice', info=lambda: [[str(p) for p in result]])
    choice = {k: code[k, str(p.version)] for k, p in zip(keys, result)}
    S.check(valid(choice), 'the resolution does not meet the requirements', info=lambda: [choice])
    # nothing is installed that nothing requires
    reached, todo, seen = {'app'}, [('app', frozenset())], set()
    while todo:
        key, extras = todo.pop()
        if (key, extras) in seen or key not in choice:
            continue
        seen.add((key, extras))
        for c, r in needs(choice, key, extras):
            if c:
                reached.add(r.key)
                todo.append((r.key, r.extras))
    S.check(set(choice) == reached, 'packages are chosen that nothing requires', info=lambda: [choice, sorted(reached)])


def override(given, text, key, ok=always):
    r = Req(text, key, ok)
    r.given = given
    return r


def cases(tier):
    out = []
    for kind in OPTS:
        out.append(Case(kind, resolve, dict(kind=kind), f'requirements of the root and of two packages of two versions: {kind}',
                        reach=('solved',) if kind not in ('direct and extras', 'pre release') else (), timeout=300, weight=6))
    for kind in ('spelling', 'extras'):
        out.append(Case(f'{kind}, incompatible and broken releases', resolve, dict(kind=kind, flags=True),
                        'the same, any release may be incompatible with the environment or have unreadable metadata',
                        reach=('solved', 'no solution'), timeout=800, weight=10, best_effort=kind == 'extras'))
    over = [{UTIL: override('util', 'util==1', UTIL, lambda v: v == 1)},
            {UTIL: override('Util', 'UTIL>=2', UTIL, lambda v: v >= 2)},
            {LIB: override('my.lib', 'my-lib==2', LIB, lambda v: v == 2)},
            {LIB: override('My_Lib', 'util', UTIL)}]
    out.append(Case('overrides', resolve, dict(kind='spelling', overrides=over),
                    'the same, some requirement is overridden', reach=('solved',), timeout=300, weight=8))
    return out
