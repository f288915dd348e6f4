"""Q01: looking up packages - the order of repositories, bindings, inheritance along contexts, what is registered."""
import io
import sys
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.repositories import repository_management as rm
from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, RepositoryInstanceConfig
from pkm.api.repositories.repository import AbstractRepository, RepositoryBuilder, RepositoryPublisher
from pkm.api.repositories.repository_loader import RepositoryLoader, REPOSITORIES_CONFIGURATION_PATH
from pkm.api.versions.version import StandardVersion
from pkm.resolution.packages_lock import PackagesLock
from pkm.utils.commons import NoSuchElementException

from props._world import Env, Pkg
from sx.session import Case

PROPERTY = 'Q01'
ASSUMPTIONS = ['repositories are stand-ins that answer from symbolic contents', 'repositories of one configuration have different names']

ENV = Env()


class Store:
    """which repository (by its argument `id`) has which packages: decided when it is asked"""

    def __init__(self, S, options=('nothing', 'final')):
        self.S, self.options, self.what, self.asked = S, options, {}, []

    def has(self, id, key):
        if (id, key) not in self.what:
            self.what[id, key] = self.S.pick(f'{id} has {key}', list(self.options))
        return self.what[id, key]

    def versions(self, id, key):
        """(version, compatible)"""
        rel = lambda n, **k: (StandardVersion((n,), **k), True)
        return {'nothing': [], 'final': [rel(2), rel(1)], 'pre': [rel(3, pre_release=('a', 1))],
                'both': [rel(3, pre_release=('a', 1)), rel(2)], 'incompatible': [(StandardVersion((2,)), False)],
                'compatible pre': [(StandardVersion((4,)), False), rel(3, pre_release=('a', 1))]}[self.has(id, key)]

    def answer(self, id, dep):
        """what a repository gives for a dependency: (id, version) from the best on"""
        if url := dep.required_url():
            return [(id, str(url))] if self.has(id, f'url {url.url}') != 'nothing' else []
        found = [v for v, ok in self.versions(id, dep.package_name_key) if ok and dep.version_spec.allows_version(v)]
        final = [v for v in found if not v.is_pre_or_dev_release()]
        if final and 'a' not in str(dep.version_spec):
            found = final
        return [(id, str(v)) for v in found]


class From(Pkg):
    def __init__(self, name, version, id, ok=True):
        super().__init__(name, version, lambda: [], lambda: ok)
        self.id = id


class Fake(AbstractRepository):
    def __init__(self, name, id, store, protocols=(), named=True):
        super().__init__(name)
        self.id, self.store, self.protocols, self.named = id, store, protocols, named

    def _do_match(self, dep, env):
        if url := dep.required_url():
            return [From(dep.package_name, url, self.id)] if self.store.has(self.id, f'url {url.url}') != 'nothing' else []
        return [From(dep.package_name, v, self.id, ok) for v, ok in self.store.versions(self.id, dep.package_name_key) if
                dep.version_spec.allows_version(v)]

    def accepted_url_protocols(self):
        return self.protocols

    def accept_non_url_packages(self):
        return self.named

    @property
    def publisher(self):
        return RepositoryPublisher(self.id)


class Builder(RepositoryBuilder):
    def __init__(self, store, kind='fake', protocols=(), named=True):
        super().__init__(kind)
        self.store, self.protocols, self.named = store, protocols, named

    def build(self, name, id, more=None):
        return Fake(name, id, self.store, self.protocols, self.named)


def loader_of(store, base=None, global_config=None, **builders):
    loader = RepositoryLoader.__new__(RepositoryLoader)
    loader._builders = {'fake': Builder(store), 'urls': Builder(store, 'urls', ('u1', 'u2'), False),
                        'mixed': Builder(store, 'mixed', ('u1',))}
    loader._builder_providers, loader._cached_instances = {}, {}
    base = base or Fake('base', 'base', store, ('u1', 'u3'))
    loader.global_repo_config = global_config or RepositoriesConfiguration.from_config({'inheritance': 'context'})
    loader._global_repo = base
    if global_config:
        loader._global_repo = loader.load('global', global_config, base)
    return loader


def found(packages):
    return [(p.id, str(p.version)) for p in packages]


DEPS = ['my-pkg', 'My.PKG>=2', 'other', 'MY_pkg>=3a0']
URLS = ['my-pkg @ u1://a', 'my.pkg @ u2://a', 'other @ u3://a', 'other @ u4://a']


def ask(S, repo, text, expected, what, inf):
    dep = Dependency.parse(text)
    try:
        got = found(repo.match(dep, ENV))
    except NoSuchElementException:
        got = 'undefined'
    want = expected(dep)
    S.trace(text, want if want == 'undefined' else [list(w) for w in want])
    S.check(got == want, what, info=lambda: [text, got, want, *inf()])
    S.reach('found' if got and got != 'undefined' else 'not found')


def lookup(S, deps, kinds, options, bindings=(None,), twice=False):
    store = Store(S, options)
    n = S.int('repositories', 0, 2)
    n = S.conc(n)
    repos, config = [], {}
    for i in range(n):
        kind = S.pick(f'type{i}', kinds)
        same = i and bool(S.flag('same arguments'))
        bind_only = bool(S.flag(f'bind only {i}'))
        name, id = f'r{i}', 'id0' if same else f'id{i}'
        repos.append((name, id, kind, bind_only))
        config[name] = {'type': kind, 'id': id, **({'bind-only': True} if bind_only else {})}
        if S.flag(f'more arguments {i}') if twice else False:
            config[name]['more'] = ['a', 'b']
    mode = S.pick('inheritance', ['context', 'global', 'none'])
    bound = {}
    binding = S.pick('binding', list(bindings))
    if binding:
        for text, to in binding.items():
            S.assume(not isinstance(to, str) or to == 'nope' or to in config)
            bound[PackageDescriptor.package_name_key(text)] = to if isinstance(to, str) else to['id']
    whole = {'repos': config, 'inheritance': mode, **({'package-bindings': {k: v if isinstance(v, str) else dict(v) for k, v in
                                                                            binding.items()}} if binding else {})}
    configuration = RepositoriesConfiguration.from_config({**whole})
    loader = loader_of(store)
    context = Fake('context', 'context', store, ('u2',))
    loads = 2 if twice else 1
    ids = {name: id for name, id, *_ in repos}
    upper = {'context': ('context', ('u2',)), 'global': ('base', ('u1', 'u3')), 'none': None}[mode]
    handles = {'fake': (), 'urls': ('u1', 'u2'), 'mixed': ('u1',)}

    def expected(dep):
        if url := dep.required_url():
            for name, id, kind, _ in repos:
                if url.protocol in handles[kind] and (r := store.answer(id, dep)):
                    return r
            return store.answer(upper[0], dep) if upper and url.protocol in upper[1] else []
        if to := bound.get(dep.package_name_key):
            if to == 'nope':
                return 'undefined'
            if to in ids and next(k for m, _, k, _ in repos if m == to) == 'urls':
                return 'undefined'
            return store.answer(ids.get(to, to), dep)
        for name, id, kind, bind_only in repos:
            if kind != 'urls' and not bind_only and (r := store.answer(id, dep)):
                return r
        return store.answer(upper[0], dep) if upper else []

    text = S.pick('dependency', list(deps))
    for i in range(loads):
        repo = loader.load(f'cfg{i}', configuration, context)
        S.check(repo is not None, 'a configuration gives no repository', info=lambda: whole)
        if repo is not None:
            ask(S, repo, text, expected, 'a package is not taken from the repository it has to come from', lambda: [whole])


INLINE = {'type': 'fake', 'id': 'inline1'}
INLINE2 = {'type': 'fake', 'id': 'inline2', 'bind-only': True}
BINDINGS = [{'My_Pkg': 'r0'}, {'my-pkg': 'r1'}, {'my-pkg': INLINE}, {'other': INLINE, 'MY.pkg': INLINE2}, {'my.pkg': 'nope'},
            {'other': INLINE, 'my-pkg': 'r1'}]


# ---- contexts ------------------------------------------------------------------------------------------------------

class Context:
    def __init__(self, path):
        self.path = path


class Member(From):
    """a project"""

    def __init__(self, name, version):
        super().__init__(name, version, f'project {name}')


def contexts(S, ctx, levels, ask_for):
    """the chain project -> group -> environment -> zoo -> global"""
    store = Store(S)
    root = S.scratch()
    for m in ('stderr',):
        S.patch(sys, m, io.StringIO())
    modes, defined = {}, {}

    def configure(level):
        """a configuration file, or none; its own repository, or none"""
        d = root / level
        mode = S.pick(f'{level} inherits', ['no file', 'context', 'global', 'none']) if level in levels else 'no file'
        modes[level] = mode
        defined[level] = mode != 'no file' and bool(S.flag(f'{level} has repositories'))
        d.mkdir(parents=True)
        if mode != 'no file':
            f = d / REPOSITORIES_CONFIGURATION_PATH
            f.parent.mkdir(parents=True)
            f.write_text(f'inheritance = "{mode}"\n' + (f'[repos.main]\ntype = "fake"\nid = "{level}"\n' if defined[level] else ''))
        return Context(d)

    has_group = ctx in ('project', 'group') and ('group' in levels) and (ctx == 'group' or bool(S.flag('in a group')))
    has_zoo = 'zoo' in levels and bool(S.flag('in a zoo'))
    glob = RepositoriesConfiguration.from_config({'repos': {'main': {'type': 'fake', 'id': 'global'}}})
    glob.path = root / 'global.toml'
    loader = loader_of(store, Fake('base', 'base', store), glob)
    pkm = Context(root)
    pkm.repository_loader = loader
    pkm.repository_management = rm.PkmRepositoryManagement(pkm)
    S.patch(rm, 'pkm', pkm)
    env = configure('env')
    env.zoo = None
    if has_zoo:
        env.zoo = configure('zoo')
        env.zoo.config = Context(None)
        env.zoo.config.package_sharing = Context(None)
        env.zoo.config.package_sharing.enabled = False
        env.zoo.repository_management = rm.ZooRepositoryManagement(env.zoo, loader)
    env.repository_management = rm.EnvRepositoryManagement(env, loader)
    projects = []
    if ctx in ('project', 'group'):
        me = configure('project') if ctx == 'project' else None
        group = None
        if has_group:
            group = configure('group')
            group.project_children_recursive = projects
            group.repository_management = rm.ProjectGroupRepositoryManagement(group, loader)
            projects += [Member('Proj', 1), Member('side', 3)]
        if me:
            project = Member('Proj', 1)
            project.path, project.attached_environment, project.group, project.lock = me.path, env, group, PackagesLock()
            project.repository_management = rm.ProjectRepositoryManagement(project, loader)
    management = {'project': lambda: project, 'group': lambda: group, 'env': lambda: env}[ctx]().repository_management
    order = {'project': ['project', *(['group'] if has_group else []), 'env', *(['zoo'] if has_zoo else []), 'global'],
             'group': ['group', 'global'], 'env': ['env', *(['zoo'] if has_zoo else []), 'global']}[ctx]
    names = {'project': ['proj'], 'group': ['proj', 'side']}

    def visited():
        todo, out = list(order), []
        while todo:
            level = todo.pop(0)
            out.append(level)
            mode = modes.get(level, 'context')
            if mode == 'none':
                break
            if mode == 'global':
                todo = ['global']
        return out

    def expected(dep):
        levels = visited()
        for level in levels:
            if dep.package_name_key in names.get(level, ()) and not dep.required_url():
                n = dep.package_name_key
                v = {'proj': 1, 'side': 3}[n]
                return [(f'project {"Proj" if n == "proj" else n}', str(v))] if dep.version_spec.allows_version(StandardVersion((v,))) else []
            if level == 'global':
                return store.answer('global', dep) or store.answer('base', dep)
            if defined.get(level) and (r := store.answer(level, dep)):
                return r
        return []

    inf = lambda: [modes, defined, order]
    repo = management.attached_repo
    S.check(repo is not None, 'a context has no repository', info=inf)
    for text in ask_for:
        if repo is not None:
            ask(S, repo, text, expected, 'a context looks a package up in the wrong place', inf)
    # the definition of a name that is nearest counts
    mode = modes[ctx]
    nearest = [l for l in (order if mode in ('context', 'no file') else [ctx, 'global'] if mode == 'global' else [ctx])
               if l == 'global' or defined.get(l)]
    every = dict(management.all_repositories())
    S.check({k: v.args for k, v in every.items()} == ({'main': {'id': nearest[0]}} if nearest else {}),
            'the repositories of a context are not the nearest ones', info=lambda: [{k: v.args for k, v in every.items()}, *inf()])
    try:
        publisher = management.publisher_for('main').repository_name
        S.check(management.publisher_for('main').repository_name == publisher, 'the publisher changes')
    except NoSuchElementException:
        publisher = None
    S.check(publisher == (nearest[0] if nearest else None), 'the publisher of a repository is another one', info=inf)


# ---- registering ---------------------------------------------------------------------------------------------------

def registering(S, n):
    store = Store(S)
    root = S.scratch()
    repos = {'r0': 'id0', 'r1': 'id1'}
    bind_only, bound = set(), {}
    path = root / REPOSITORIES_CONFIGURATION_PATH
    path.parent.mkdir(parents=True)
    start = S.pick('at first', ['nothing', 'My_Pkg', 'two'])
    text = '[repos]\nr0 = {type = "fake", id = "id0"}\nr1 = {type = "fake", id = "id1"}\n'
    if start != 'nothing':
        text += '[package-bindings]\nMy_Pkg = "r1"\n' + ('other = {type = "fake", id = "inline"}\n' if start == 'two' else '')
        bound['my_pkg'] = 'id1'
        if start == 'two':
            bound['other'] = 'inline'
    path.write_text(text)
    loader = loader_of(store)
    pkm = Context(root / 'home')
    pkm.repository_loader, loader.global_repo_config.path = loader, root / 'home.toml'
    pkm.repository_management = rm.PkmRepositoryManagement(pkm)
    S.patch(rm, 'pkm', pkm)

    def management(loader):
        env = Context(root)
        env.zoo = None
        return rm.EnvRepositoryManagement(env, loader)
    m = management(loader)
    history = []
    names = {'id0': 'r0', 'id1': 'r1', 'id2': 'r2'}
    for i in range(n):
        if S.flag(f'asked before {i}'):
            m.attached_repo
        op = S.pick(f'op{i}', ['bind one', 'bind both', 'bind inline', 'unbind', 'remove', 'add', 'add bound', 'add unknown'])
        history.append(op)
        if op == 'bind one':
            m.register_bindings(['my.PKG'], 'r0')
            bound['my_pkg'] = 'id0' if 'r0' in repos else 'undefined'
        elif op == 'bind both':
            m.register_bindings(['my-pkg', 'Other'], 'r1')
            bound['my_pkg'] = bound['other'] = 'id1'
        elif op == 'bind inline':
            m.register_bindings(['my_pkg'], RepositoryInstanceConfig('fake', True, {'id': 'inline2'}))
            bound['my_pkg'] = 'inline2'
        elif op == 'unbind':
            m.register_bindings(['MY-pkg'], None)
            bound.pop('my_pkg', None)
        elif op == 'remove':
            m.remove_repository('r0')
            repos.pop('r0', None)
            bound = {k: v for k, v in bound.items() if v not in ('id0', 'undefined')}
        elif op == 'add unknown':
            try:
                m.add_repository('r9', 'nosuch', {'id': 'x'})
                S.check(False, 'a repository of an unknown type is added')
            except KeyError as e:
                S.check('nosuch' in str(e), 'the unknown type is not told', info=lambda: str(e))
        else:
            m.add_repository('r2', 'fake', {'id': 'id2'}, op == 'add bound')
            repos['r2'] = 'id2'
            (bind_only.add if op == 'add bound' else bind_only.discard)('r2')

    def expected(dep):
        if to := bound.get(dep.package_name_key):
            return 'undefined' if to == 'undefined' else store.answer(to, dep)
        for name, id in repos.items():
            if name not in bind_only and (r := store.answer(id, dep)):
                return r
        return store.answer('base', dep)
    text = S.pick('dependency', ['my-pkg', 'other'])
    for man in (m, management(loader_of(store))):
        ask(S, man.attached_repo, text, expected, 'what was registered does not hold', lambda: [start, history, path.read_text()])
        S.check(dict(man.defined_repositories()).keys() == repos.keys(), 'the defined repositories are others', info=lambda: history)


def cases(tier):
    deep = tier == 'thorough'
    T = 1500 if deep else 300
    both = ('found', 'not found')
    out = [Case('order', lookup, dict(deps=DEPS if deep else DEPS[:2], kinds=['fake', 'mixed', 'urls'], options=['nothing', 'final']),
                'up to two repositories of three kinds with any contents', reach=both, timeout=T, weight=4),
           Case('bindings', lookup, dict(deps=DEPS, kinds=['fake', 'urls'] if deep else ['fake'], options=['nothing', 'final'], bindings=[None, *BINDINGS], twice=True),
                'and any of the listed bindings', reach=both, timeout=T, weight=8),
           Case('releases', lookup, dict(deps=DEPS, kinds=['fake'], options=['nothing', 'final', 'pre', 'both', 'incompatible', 'compatible pre'],
                                         bindings=[None, {'my-pkg': 'r0'}]),
                'and pre-releases and packages that are not compatible', reach=both, timeout=T, weight=8),
           Case('urls', lookup, dict(deps=URLS, kinds=['fake', 'mixed', 'urls'], options=['nothing', 'final'], bindings=[None, {'my-pkg': 'r0'}]),
                'packages by url', reach=both, timeout=T, weight=4)]
    for ctx, levels in (('project', ('project', 'group', 'env')), ('project', ('project', 'env', 'zoo')), ('env', ('env', 'zoo')),
                        ('group', ('group', 'env'))):
        asks = ['Lib', 'PROJ', 'proj>=2', 'side', 'side<3']
        out.append(Case(f'{ctx} {levels[-1]}', contexts, dict(ctx=ctx, levels=levels, ask_for=asks if ctx == 'group' else asks[:4] if deep else ['Lib', 'side'] if levels[-1] == 'env' else ['Lib', 'proj>=2', 'PROJ']),
                        f'a {ctx} with any configurations of {levels}', reach=both, timeout=T, sandbox=True, weight=8, best_effort=deep))
    out.append(Case('registering', registering, dict(n=3 if deep else 2), 'any two changes of the configuration', reach=both, timeout=T,
                    sandbox=True, weight=8, best_effort=deep))
    return out
