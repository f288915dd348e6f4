"""X01: a template becomes exactly the files it describes, and never replaces what is there unless that is asked."""
import os
import types
from pathlib import Path

import pkm_cli.main as cli
import pkm_cli.utils.context as ctx
from pkm.api.projects.pyproject_configuration import PyProjectConfiguration
from pkm_cli.api.templates import template_runner
from pkm_cli.api.templates.template_runner import Template, TemplateRunner

from props._fs import put
from sx.session import Case

PROPERTY = 'X01'
ASSUMPTIONS = ['texts are put into names and files by the template engine that is installed; the names and texts are those of a set of templates']

PLAIN = 'def setup():\n    return {}\n'


def snap(root):
    """relative path -> content, None for directories, where links lead"""
    return {str(p.relative_to(root)): 'link to ' + os.readlink(p) if p.is_symlink() else None if p.is_dir() else p.read_bytes() for p in sorted(root.rglob('*'))}


def template_of(S, root, values, more=''):
    """the template in the directory; its setup returns the values"""
    (root / 'render.py').write_text(f'VALUES = {values!r}\ncalls = []\n\ndef setup(**args):\n    calls.append(args)\n    return dict(VALUES)\n{more}')
    import importlib.util as iu
    return Template(iu.spec_from_file_location('t.render', str(root / 'render.py')), TemplateRunner())


def fill(text, values):
    for k in 'abc':
        text = text.replace('{{' + k + '}}', values.get(k) or '')
    return text


def matches(name, patterns):
    import fnmatch
    return any(fnmatch.fnmatchcase(name, p) for p in patterns)


class Outside(Exception):
    pass


def expected(files, values):
    """{path: text} of the template files {path: text}"""
    tree = {}
    for p, text in files.items():
        d = tree
        *dirs, name = p.split('/')
        for x in dirs:
            d = d.setdefault(x, {})
        if text is None:
            d.setdefault(name, {})
        else:
            d[name] = text
    out = {}

    def copy(d, at):
        out[at] = None
        for name, v in d.items():
            if isinstance(v, dict):
                copy(v, f'{at}/{name}')
            else:
                out[f'{at}/{name}'] = v

    def walk(d, at, patterns):
        patterns = patterns + [x for x in d.get('.templateignore', '').split('\n') if x]
        for name, v in d.items():
            if name in ('.templateignore', '__pycache__') or (name == 'render.py' and not at) or matches(name, patterns):
                continue
            new = fill(name, values)
            if not new or (new == '.tmpl' and not isinstance(v, dict)):
                continue
            to = os.path.normpath(f'{at}/{new}' if at else new)
            if to.startswith('..') or to.startswith('/') or (at and not to.startswith(at + '/') and to != at):
                raise Outside(new)
            for parent in list(Path(to).parents)[:-1]:
                out.setdefault(str(parent), None)
            if isinstance(v, dict):
                if '.templatepreserve' in v:
                    copy(v, to)
                else:
                    out.setdefault(to, None)
                    walk(v, to, patterns)
            elif to.endswith('.tmpl'):
                out[to[:-5]] = fill(v, values)
            else:
                out[to] = v
    walk(tree, '', [])
    return out


def ordered(S):
    """directories are listed in either order"""
    back, real = S.flag('names in reverse'), Path.iterdir

    def iterdir(self):
        names = sorted(real(self))
        return iter(names[::-1] if back else names)
    S.patch(Path, 'iterdir', iterdir)


def rendered(S, deep, ignore):
    parts = {'file': {'{{c}}.tmpl': 'v={{a}}{{b}}'}, 'dir': {'{{a}}/x.txt': '{{a}}', '{{a}}/{{b}}.tmpl.py.tmpl': '{{b}}', '{{a}}/empty': None},
             'preserved': {'keep/.templatepreserve': '', 'keep/{{a}}.tmpl': '{{a}}', 'keep/d/skip.txt': 's'},
             'nested': {'n/skip.txt': '1', 'n/y.txt': '2', 'n/render.py': 'x', 'n/__pycache__/p': 'x', 'n/m/y.txt': '3', 'n/m/skip.txt': '4'},
             'plain': {'z.txt': '{{a}}', '__pycache__/p': 'x', 'skip.txt': 's'}}
    files = {}
    for name, part in parts.items():
        if S.flag(name):
            files.update(part)
    if ignore:
        files['.templateignore'] = ignore
    if 'n/y.txt' in files and S.flag('ignored further down'):
        files['n/.templateignore'] = 'y*'
    values = {}
    if a := S.pick('a', [None, '', 'one', 'p/q', '../out', '/abs', 'p/../r']):
        values['a'] = a if a != '/abs' else str(S.scratch() / 'abs')
    if b := S.pick('b', [None, 'two'] + (['..'] if deep else [])):
        values['b'], values['c'] = b, 'cc'
    root, target = S.scratch().resolve() / 't', S.scratch().resolve() / 'target'
    root.mkdir(), target.mkdir()
    put(root, files)
    ordered(S)
    t = template_of(S, root, values)
    overwrite = S.flag('overwrite')
    around = snap(target.parent)
    try:
        t.execute(target, {}, overwrite)
        failed = None
    except OSError as e:
        failed = e
    try:
        want = expected(files, values)
    except Outside:
        want = None
    info = lambda: (files, values, failed, snap(target))
    rest = {k: v for k, v in snap(target.parent).items() if not k.startswith('target/')}
    S.check(rest == around and not (a == '/abs' and Path(values['a']).parent.exists() and any(Path(values['a']).parent.iterdir())), 'nothing is written elsewhere', info=info)
    if want is None:
        S.check(failed is not None, 'files elsewhere are refused', info=info)
        S.check(overwrite or not snap(target), 'what is refused writes nothing', info=info)
        S.reach('outside')
        return
    S.check(failed is None, 'templates are rendered', info=info)
    S.check(snap(target) == {k: v if v is None else v.encode() for k, v in want.items()}, 'the files are exactly those of the template', info=lambda: (sorted(files), values, want, snap(target)))
    S.check(snap(root).items() >= {k: v if v is None else v.encode() for k, v in files.items()}.items(), 'the template is as it was')
    S.reach('rendered')


def existing(S):
    files = {'{{a}}/x.txt': 'new', '{{a}}/s/y.tmpl': '{{b}}', 'keep/.templatepreserve': '', 'keep/k': 'new', 'w.txt': 'new'}
    values = {'a': S.pick('a', ['one', 'p/q']), 'b': 'two'}
    want = expected(files, values)
    root, target = S.scratch().resolve() / 't', S.scratch().resolve() / 'target'
    root.mkdir(), target.mkdir()
    put(root, files)
    ordered(S)
    (root.parent / 'elsewhere').mkdir()
    old, clash = {}, False
    at = S.pick('there is', [None, *sorted(want), 'other', 'one/other'])
    what = S.pick('it is', ['file', 'directory', 'full directory', 'link to nothing', 'link to a directory']) if at else None
    if at:
        p = target / at
        p.parent.mkdir(parents=True, exist_ok=True)
        if what == 'file':
            p.write_text('old')
        elif 'link' not in what:
            p.mkdir()
            if what.startswith('full'):
                (p / 'mine').write_text('old')
        else:
            p.symlink_to(root.parent / ('nothing' if what.endswith('nothing') else 'elsewhere'))
        if at in want:
            clash = want[at] is not None or what in ('file', 'link to nothing')
    overwrite = S.flag('overwrite')
    if overwrite and what and 'link' in what:
        return
    before = snap(target)
    t = template_of(S, root, values, 'def post_render(context):\n    calls.append("after")\n')
    try:
        t.execute(target, {'x': 1}, overwrite)
        failed = None
    except OSError as e:
        failed = e
    calls = t._module.calls
    info = lambda: (at, what, overwrite, failed, snap(target), calls)
    if not overwrite and clash:
        S.check(failed is not None, 'what is there is not replaced', info=info)
        S.check(snap(target) == before and not snap(root.parent / 'elsewhere') and not (root.parent / 'nothing').exists(), 'what is refused leaves everything as it was', info=info)
        S.check(calls == [{'x': 1}], 'what is refused is not followed by anything', info=info)
        S.reach('refused')
    elif overwrite and clash and (what != 'file' or want[at] is None):
        S.check(snap(target).items() >= {k: v for k, v in before.items() if k not in want}.items(), 'other files are kept', info=info)
    else:
        S.check(failed is None, 'new files are written beside others', info=info)
        wanted = {k: v if v is None else v.encode() for k, v in want.items()}
        if what == 'link to a directory' and at in want:
            S.check(snap(root.parent / 'elsewhere') == {k[len(at) + 1:]: v for k, v in wanted.items() if k.startswith(at + '/')}, 'links to directories are followed', info=info)
        else:
            S.check(snap(target) == {**before, **wanted}, 'the files are added, and others are kept', info=info)
        S.check(calls == [{'x': 1}, 'after'], 'the template is asked once, and told afterwards', info=info)
        S.reach('overwritten' if clash else 'added')


def command(S):
    """`pkm new` with templates of the working directory"""
    work = S.scratch().resolve()
    name = S.pick('template', ['my-template', 'my_template', 'group.tmp', 'missing'])
    made = S.pick('made as', ['my-template', 'my_template', 'group/tmp'])
    put(work, {f'{made}/render.py': '"""about"""\ndef setup(x: str, y: int = 7, *, flag: bool = False, other: str = "o"):\n    return locals()\n\n'
               'def post_render(context):\n    assert target_dir.joinpath(context["x"]).exists()\n',
               f'{made}/{{{{x}}}}.tmpl': '{{x}} {{y + 1}} {{flag}} {{other}}'})
    cwd = os.getcwd()
    S.on_exit(lambda: os.chdir(cwd))
    os.chdir(work)
    S.patch(ctx.Display, 'print', lambda *a, **k: None)
    S.patch(cli.cli_monitors, 'listen', lambda verbose: None)
    import pkm_cli.api.dynamic_cli.command_parser as cp
    S.patch(cp.Command, 'print_help', lambda self: None)
    if S.flag('there already'):
        put(work, {'res': 'old'})
    x = S.pick('x', [None, 'res'])
    y = S.pick('y', [None, '3', 'w']) if x else None
    options = [o for o in ('--flag', '--other=z', '-o') if S.flag(o)]
    words = [w for w in (x, y) if w] + options
    before = snap(work)
    try:
        cli.main(['pkm', 'new', name] + words)
        end = 0
    except (SystemExit, Exception) as e:
        end = type(e).__name__
    found = name.replace('.', '/') == made
    overwrite = '-o' in options and '--overwrite'
    info = lambda: (name, made, words, end, snap(work))
    after = {k: v for k, v in snap(work).items() if '__pycache__' not in k}
    # -o belongs to the template when it has an option of that letter
    letters = {'flag': 'f', 'other': 'o'}
    if '-o' in options:
        S.check(end != 0 and after == before, 'an option of the template needs its value', info=info)
        return
    if found and x and y != 'w' and 'res' not in before:
        y = int(y or 7)
        want = f"res {y + 1} {'--flag' in options} {'z' if '--other=z' in options else 'o'}"
        S.check(end == 0 and after == {**before, 'res': want.encode()}, 'the template is rendered with the values of the command line', info=info)
        S.reach('rendered')
    else:
        S.check(end != 0 and after == before, 'what cannot be rendered is refused, and changes nothing', info=info)
        S.reach('refused')


def project(S):
    """templates that come with pkm"""
    text = lambda name, options: S.pick(name, options)
    odd = ['', 'a "b" \\', "it's <&>", 'ü \U0001f600', 'x\ty', '{{a}} {% b']
    answers = {'Version': '1.2', 'Short description': text('description', odd), 'Author': text('author', ['me', *odd[1:]]), 'Readme type': text('readme', ['Markdown', 'reStructuredText']),
               'Required Python Version': '3.9', 'License': text('license', ['MIT License', 'Other "Proprietary"'])}
    asked = []

    def ask(self, prompt, default='', **k):
        asked.append(prompt)
        return answers[prompt]
    S.patch(template_runner._TemplateExtendedBuiltins, 'ask', ask)
    S.patch(template_runner._TemplateExtendedBuiltins, 'confirm', lambda self, *a, **k: False)
    from pkm.api.pkm import pkm
    S.patch(pkm, 'installed_pythons', types.SimpleNamespace(all_installed=[]))
    target = S.scratch().resolve()
    through = S.flag('rendered by another template')
    with TemplateRunner().load_template('project') as t:
        if through:
            inner = S.scratch().resolve()
            (inner / 'render.py').write_text('def setup(**args):\n    render_template("project", **args)\n    assert (target_dir / "my-proj/pyproject.toml").exists()\n    return {}\n')
            import importlib.util as iu
            t = Template(iu.spec_from_file_location('t.render', str(inner / 'render.py')), TemplateRunner())
        t.execute(target, {'project_name': 'my-proj'})
    ext = 'md' if answers['Readme type'] == 'Markdown' else 'rst'
    files = [k for k, v in snap(target).items() if v is not None]
    S.check(sorted(files) == sorted(f'my-proj/{f}' for f in (f'README.{ext}', 'pyproject.toml', 'src/my_proj/__init__.py', 'src/my_proj/main.py')), 'a project has its files', info=lambda: files)
    p = PyProjectConfiguration.load(target / 'my-proj' / 'pyproject.toml').project
    got = (p.name, str(p.version), p.description, str(p.requires_python), [c.name for c in p.authors], p.license if isinstance(p.license, str) else getattr(p.license, 'text', p.license))
    S.trace(str(got))
    S.check(p.description == answers['Short description'], 'the description is what was answered', info=lambda: (answers, got))
    S.check([c.name for c in p.authors] == [answers['Author']], 'the author is who was answered', info=lambda: (answers, got))
    S.check((p.name.replace('_', '-'), str(p.version)) == ('my-proj', '1.2'), 'name and version are those that were answered', info=lambda: got)
    S.check(answers['License'] in str(got[-1]), 'the license is what was answered', info=lambda: got)
    S.check(len(asked) == len(set(asked)), 'nothing is asked twice')
    S.reach('through' if through else 'direct')


def cases(tier):
    deep = tier == 'thorough'
    ignored = {'nothing': None, 'names': 'skip.txt', 'patterns': '*.txt', 'directories': 'keep\n\nm'}
    return [Case(f'rendered[ignoring {k}]', rendered, dict(deep=deep, ignore=v), 'all sets of five parts of a template; ignored names at two levels; seven values of a name; both orders of names',
                 ['rendered', 'outside']) for k, v in ignored.items()] + [
            Case('existing', existing, {}, 'any one of the files to be written is there already, in five ways', ['refused', 'added', 'overwritten']),
            Case('command', command, {}, 'four names of templates at three places; all sets of arguments', ['rendered', 'refused']),
            Case('project', project, {}, 'six descriptions and authors', ['direct', 'through'])]
