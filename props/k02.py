"""K02: a command works on the project, group or environment that its directory and options select, and installs exactly what is asked."""
import contextlib
import types
from pathlib import Path

import pkm_cli.main as cli
import pkm_cli.utils.context as ctx
from pkm.api.pkm import pkm
from pkm.api.packages.package_installation_info import StoreMode
from pkm.utils.commons import UnsupportedOperationException
from pkm_cli.api.dynamic_cli.command_parser import CommandParsingError

from props._fs import put
from sx.session import Case

PROPERTY = 'K02'
ASSUMPTIONS = ['a directory is a project, a group, a virtual environment or a zoo by its marker file; what is installed where is recorded by stand-ins for '
               'projects, environments and their repositories']

MARKS = {'none': [], 'project': ['pyproject.toml'], 'group': ['pyproject-group.toml'], 'env': ['pyvenv.cfg'], 'zoo': ['env-zoo.toml'],
         'project, env': ['pyproject.toml', 'pyvenv.cfg'], 'group, zoo': ['env-zoo.toml', 'pyproject-group.toml']}
KINDS = ['project', 'group', 'env', 'zoo']
MARKER = dict(zip(KINDS, ['pyproject.toml', 'pyproject-group.toml', 'pyvenv.cfg', 'env-zoo.toml']))


class Thing:
    """what is loaded of a directory"""

    def __init__(self, kind, path):
        self.kind, self.path = kind, path

    @property
    def attached_environment(self):
        return Thing('attached', self.path)

    interpreter_path = 'python'


def stand_ins(S, make=Thing):
    class Env:
        def __new__(cls, path):
            return make('env', Path(path))

        @staticmethod
        def current(site='user'):
            return make('global', site)

    S.patch(ctx, 'Environment', Env)
    S.patch(ctx.Project, 'load', staticmethod(lambda p: make('project', Path(p))))
    S.patch(ctx.ProjectGroup, 'load', staticmethod(lambda p: make('group', Path(p))))
    S.patch(ctx.EnvironmentsZoo, 'load', staticmethod(lambda p: make('zoo', Path(p))))
    S.patch(ctx.Display, 'print', lambda *a, **k: None)


def tree(S, levels):
    """directories in each other, the outermost first, and what each is"""
    d, out = S.scratch().resolve(), []
    for i in range(levels):
        d = d / f'd{i}'
        d.mkdir()
        kind = S.pick(f'directory {i} is', list(MARKS))
        put(d, {m: '' for m in MARKS[kind]})
        out.append((d, kind))
    return out


def supported(dirs, handlers):
    """(kind of handler, kind of thing, directory)"""
    for d, marks in dirs:
        marks = MARKS[marks]
        for kind in KINDS:
            if kind in handlers:
                if MARKER[kind] in marks:
                    return kind, kind, d
                if kind == 'env' and 'pyproject.toml' in marks:
                    return kind, 'attached', d
    return None


def command_of(**args):
    args = {'context': None, 'global_context': False, **args}
    top = types.SimpleNamespace(**args)
    top.parent_by_path = lambda *p: top
    return top


def contexts(S, levels):
    stand_ins(S)
    dirs = tree(S, levels)
    handlers = [k for k in KINDS if S.flag(f'the command works on a {k}')]
    how = S.pick('options', ['none', '-c', '-g'])
    seen = []

    def handler(kind):
        return lambda what: seen.append((kind, what.kind, what.path))
    names = dict(zip(KINDS, ['on_project', 'on_project_group', 'on_environment', 'on_env_zoo']))
    run = {names[k]: handler(k) for k in handlers}
    fallback = S.pick('otherwise', ['refuse', 'missing', 'free']) if how != '-g' else S.pick('otherwise', ['refuse', 'missing'])
    if fallback != 'refuse':
        run['on_missing' if fallback == 'missing' else 'on_free_context'] = lambda: seen.append(fallback)
    at, site = len(dirs) - 1, None
    args = {}
    if how == '-c':
        at = S.pick('path', list(range(levels)))
        args = {'context': dirs[at][0]}
    elif how == '-g':
        site = S.pick('site', [None, 'user', 'system'])
        args = {'global_context': True, **({'site': site} if site else {})}
    S.patch(ctx.Path, 'cwd', classmethod(lambda cls: dirs[-1][0]))
    c = ctx.Context.of(command_of(**args))
    try:
        c.run(**run, silent=S.pick('silent', [True, False]), other=1)
        refused = False
    except UnsupportedOperationException:
        refused = True
    if how == '-g':
        want = ('env', 'global', site or 'user') if 'env' in handlers else None
    else:
        want = supported([dirs[at]] if how == '-c' else dirs[::-1], handlers)
    info = lambda: (how, handlers, [k for _, k in dirs], seen, want)
    if want:
        S.check(seen == [want] and not refused, 'the command works on the nearest thing it can work on, or exactly on the one that is selected', info=info)
        S.reach(want[1])
    elif fallback == 'refuse':
        S.check(refused and not seen, 'without anything to work on the command is refused', info=info)
        S.reach('refused')
    else:
        S.check(seen == [fallback] and not refused, 'without anything to work on the command does what it does then', info=info)
        S.reach('otherwise')
    if how == 'none' and fallback == 'refuse':
        near = supported(dirs[::-1], ['project'])
        try:
            got = c.lookup_project()
        except UnsupportedOperationException:
            got = None
        S.check((got and got.path) == (near and near[2]), 'the project of a directory is the nearest one', info=lambda: (near, got))
        any_ = supported(dirs[::-1], KINDS)
        got = c.lookup_has_attached_repository()
        S.check((got and (got.kind, got.path)) == (any_ and any_[1:]), 'the configuration of repositories is that of the nearest thing', info=lambda: (any_, got))


class Repos:
    def __init__(self, log, where, bound):
        self.log, self.where, self.bound = log, where, bound
        self.configuration = types.SimpleNamespace(package_bindings=dict(bound))

    def all_repositories(self):
        return [('one', object()), ('two', object())]

    def register_bindings(self, packages, repo):
        if not isinstance(repo, str):
            repo = (repo.type, repo.bind_only, dict(repo.args))
        self.log.append(('bind', self.where, list(packages), repo))


class Target:
    def __init__(self, log, where):
        self.log, self.where = log, where

    def force_remove(self, package):
        self.log.append(('remove', self.where, package))

    def install(self, dependencies, user_request=None, *, updates=None, store_mode=None):
        self.log.append(('install', self.where, [str(d) for d in dependencies], list(updates or []), dict(store_mode or {})))


class Where(Thing):
    def __init__(self, kind, path, log, bound):
        super().__init__(kind, path)
        self.log = log
        where = (kind, path)
        self.repository_management = Repos(log, where, bound)
        self.installation_target = Target(log, where)
        self.package_containers = types.SimpleNamespace(install=self._app)

    @property
    def attached_environment(self):
        return Where('attached', self.path, self.log, {})

    def _app(self, dependency, store_mode=None, update=False):
        where = ('app', self.path)
        self.log.append(('install app', (self.kind, self.path), str(dependency), store_mode, bool(update)))
        return types.SimpleNamespace(installation_target=Target(self.log, where))


PACKAGES = ['a', 'b==1', 'c[x] >=2']


def install(S, kinds, n, flags):
    log, runs = [], []
    bound = S.pick('bound before', [{}, {'a': 'one'}, {'a': 'one', 'b': 'one'}])
    stand_ins(S, lambda kind, path: Where(kind, path, log, bound))
    root = S.scratch().resolve()
    kind = S.pick('directory', kinds)
    put(root, {m: '' for m in MARKS[kind if kind != 'global' else 'none']})
    S.patch(ctx.Path, 'cwd', classmethod(lambda cls: root))

    class Prj:
        def __init__(self, prj):
            self.where = (prj.kind, prj.path)

        def install_dependencies(self, dependencies, optional_group=None, update=False, store_mode=StoreMode.AUTO):
            log.append(('add', self.where, [str(d) for d in dependencies], optional_group, bool(update), store_mode))

        def install_project(self, optional_group=None):
            log.append(('install project', self.where, optional_group))

    class Tasks:
        def __init__(self, prj):
            self.where = (prj.kind, prj.path)

        @contextlib.contextmanager
        def run_attached(self, cmd):
            log.append(('before', self.where))
            yield
            log.append(('after', self.where))
    S.patch(cli, 'PrjController', Prj)
    S.patch(cli, 'TasksRunner', Tasks)
    S.patch(cli.cli_monitors, 'listen', lambda verbose: None)
    import pkm_cli.api.dynamic_cli.command_parser as cp
    S.patch(cp.Command, 'print_help', lambda self: log.append('help'))

    words, opt = ['pkm'], {}
    if kind == 'global':
        words.append('-g')
    if 'tasks' in flags and S.flag('-T'):
        words.append('-T')
        opt['T'] = True
    words.append('install')
    names = {'o': ('--optional', ['dev']), 'm': ('--mode', ['copy', 'editable', 'auto', 'link']), 's': ('--site', ['system', 'user', 'none']),
             'r': ('--repo', ['one', 'two', 'three'])}
    for f in flags:
        if f in names:
            value = S.pick(f'-{f}', [None, *names[f][1]])
            if value:
                opt[f] = value
                words += [[f'-{f}', value], [f'{names[f][0]}={value}']][S.pick(f'form of {f}', [0, 1]) if len(names[f][1]) < 2 else f == 'm']
        elif f in 'fau' and S.flag(f'-{f}'):
            opt[f] = True
            words.append(f'-{f}')
        elif f == 'R':
            value = S.pick('-R', [None, 'pypi', 'pypi with fields', 'unknown', 'unknown field'])
            if value:
                opt['R'] = value
                words += ['-R', value.split()[0]] + {'pypi with fields': ['+packages-limit=3'], 'unknown field': ['+no']}.get(value, [])
    count = S.pick('packages', list(range(n + 1)))
    packages = PACKAGES[:count]
    words += packages
    if 'R' in flags:
        class Kind:
            type_name = 'pypi'

            class builder:
                @staticmethod
                def build(self, name, packages_limit: int = None, url: str = None):
                    ...
        S.patch(pkm, 'repository_loader', types.SimpleNamespace(available_repository_types=lambda: [Kind]))
    before = list(words)
    try:
        cli.main(words)
        end = 0
    except SystemExit as e:
        end = e.code
    except (CommandParsingError, UnsupportedOperationException, ValueError) as e:
        end = type(e)
    # what is meant
    bad = opt.get('m') == 'link' or opt.get('s') == 'none' or opt.get('r') == 'three' or opt.get('R') in ('unknown', 'unknown field')
    if 'r' in opt and kind == 'none':
        bad = True
    project = kind.startswith('project')
    mode = None if bad else StoreMode[opt.get('m', 'auto').upper()]
    where = ('project', root) if project else ('env', root) if kind == 'env' else ('global', opt.get('s', 'user'))
    names_ = [p[0] for p in packages]
    want = []
    refused = bad or kind in ('none', 'group', 'zoo') or (opt.get('a') if project else opt.get('o'))
    if not refused:
        force = opt.get('f')
        if 'r' in opt:
            if any(bound.get(p) != opt['r'] for p in names_):
                want.append(('bind', where, names_, opt['r']))
                force = True
        elif 'R' in opt:
            want.append(('bind', where, names_, ('pypi', True, {'packages-limit': 3} if 'fields' in opt['R'] else {})))
            force = True
        if project:
            if force:
                want += [('remove', ('attached', root), p) for p in names_]
            want.append(('add', where, packages, opt.get('o'), bool(opt.get('u')), mode) if packages else ('install project', where, opt.get('o')))
        elif packages:
            rest, at = packages, where
            if opt.get('a'):
                want.append(('install app', where, packages[0], mode, bool(opt.get('u')) and count == 1))
                rest, at = packages[1:], ('app', where[1])
            if rest:
                if force:
                    want += [('remove', at, p[0]) for p in rest]
                want.append(('install', at, rest, [p[0] for p in rest] if opt.get('u') else [], {p[0]: mode for p in rest}))
    norm = lambda text: text.replace(' ', '')
    got = [e for e in log if e != 'help' and e[0] not in ('before', 'after')]
    clean = lambda es: [tuple([norm(x) for x in e] if isinstance(e, list) else norm(e) if isinstance(e, str) else e for e in event) for event in es]
    info = lambda: (before, kind, got, want, end)
    S.check(clean(got) == clean(want), 'exactly what is asked is bound, removed and installed, in this order, where it is asked', info=info)
    S.check((end == 0) == (not refused), 'what cannot be done is refused, with an error', info=info)
    if project and not bad:
        tasks = [e[0] for e in log if e != 'help' and e[0] in ('before', 'after')]
        S.check(tasks == ([] if opt.get('T') else ['before'] if refused else ['before', 'after']), 'the tasks of a project are run around its commands, unless they are to be left out',
                info=lambda: (before, log))
        if tasks == ['before', 'after']:
            S.check(log[0][0] == 'before' and log[-1][0] == 'after', 'tasks run before and after', info=lambda: log)
    S.reach('refused' if refused else 'installed' if packages else 'nothing')
    if not refused and packages:
        for f in opt:
            S.reach(f'-{f}')


def helps(S):
    """command lines without anything to run"""
    log = []
    stand_ins(S)
    S.patch(ctx.Path, 'cwd', classmethod(lambda cls: Path('/nowhere')))
    import pkm_cli.api.dynamic_cli.command_parser as cp
    S.patch(cp.Command, 'print_help', lambda self: log.append(self.path))
    S.patch(cp.Command, '_execute', lambda self: log.append('run'))
    words = ['pkm']
    verbose = S.flag('-v')
    if verbose:
        words.append('-v')
    line = S.pick('line', [[], ['-h'], ['install', '-h'], ['install', '--no-such'], ['no-such'], ['install', '-c'], ['-c', 'x', '-g', 'install'], ['install', '-o']])
    words += line
    try:
        cli.main(words)
        end = 0
    except SystemExit as e:
        end = e.code
    except CommandParsingError:
        end = 'error'
    S.check('run' not in log, 'nothing is run', info=lambda: (words, log))
    S.check(len(log) == 1, 'help is shown', info=lambda: (words, log))
    bad = line and '-h' not in line
    S.check((end != 0) == bool(bad), 'command lines that mean nothing end with an error, questions for help do not', info=lambda: (words, end))
    S.reach('bad' if bad else 'help')


def cases(tier):
    deep = tier == 'thorough'
    out = [Case('contexts', contexts, dict(levels=3 if deep else 2), 'directories in each other that are any of seven things; all sets of things a command works on; all options',
                ['project', 'group', 'env', 'zoo', 'attached', 'global', 'refused', 'otherwise'])]
    n = 3 if deep else 2
    out += [Case(f'install[{k}]', install, dict(kinds=[k], n=n, flags=flags), f'up to {n} packages and all sets of options: {" ".join(flags)}',
                 ['installed'] + (['refused'] if k != 'global' or deep else []))
            for k, flags in (('project', ['tasks', 'o', 'f', 'a', 'u', 'm', 'r']), ('env', ['o', 'f', 'a', 'u', 'm', 'r']), ('global', ['o', 'f', 'a', 'u', 's', 'r']))]
    out += [Case('install[elsewhere]', install, dict(kinds=['none', 'group', 'zoo'], n=1, flags=['f', 'a', 'r']), 'other directories', ['refused']),
            Case('install[unnamed]', install, dict(kinds=['project', 'env', 'project, env'], n=2, flags=['tasks', 'f', 'u', 'r', 'R']), 'a repository of its own', ['installed', '-R', 'refused']),
            Case('help', helps, {}, 'command lines that run nothing', ['bad', 'help'])]
    return out
