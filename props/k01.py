"""K01: a command line means what the definitions of the commands say, or is refused."""
from pkm_cli.api.dynamic_cli.command_parser import (ChoicesReader, CommandParsingError, DynamicCommandLine, command, command_definitions_from,
                                                    dynamic, dynamic_commands, flag, option, positional)
from pkm_cli.api.dynamic_cli.method_parser import command_definition_from_method, fields_from_method

from sx.session import Case

PROPERTY = 'K01'
ASSUMPTIONS = ['words of the command line are of the given characters; names of options and commands are those of the layouts of commands']


class Bad(Exception):
    pass


class Ref:
    """what is defined: `options` {name: (field, kind, default)}, `positionals` [(field, count, default)], `children` {name: Ref}"""

    def __init__(self, options=None, positionals=(), children=None, defined=True, exclusive=()):
        self.options = {'-h': ('help', 'flag', False), '--help': ('help', 'flag', False), **(options or {})}
        self.positionals, self.children, self.defined, self.exclusive = positionals, children or {}, defined, exclusive


NEED = object()


def understand(S, ref, words):
    """[(name, values)] of the command and its parents, or raises Bad; words after a `=` are marked"""
    words = [(w, False) for w in words]
    out, values, at, i = [], {}, 0, 0

    def take(key):
        nonlocal i
        if i == len(words):
            raise Bad(f'no value for {key}')
        i += 1
        return words[i - 1][0]

    def fields(of, value):
        nonlocal i
        if of is None:
            return value
        value = {'value': value}
        while i < len(words) and not words[i][1] and words[i][0].startswith('+'):
            name, eq, val = words[i][0].partition('=')
            words[i:i + 1] = [(name, False)] + ([(val, True)] if eq else [])
            i += 1
            known = [f for n, f in of.items() if name == n]
            if not known:
                raise Bad('unknown field')
            field, kind, _ = known[0]
            value[field] = True if kind == 'flag' else take(name)
            if kind == 'flag' and eq:
                raise Bad('value of a flag')
        for field, kind, default in of.values():
            if field not in value:
                if default is NEED:
                    raise Bad('field is required')
                value[field] = default
        return value

    def done():
        for field, kind, default, *more in ref.options.values():
            if field not in values:
                if default is NEED:
                    raise Bad('option is required')
                values[field] = default
        for field, count, default, *more in ref.positionals[at:]:
            if default is NEED:
                raise Bad('positional is required')
            values[field] = default
        for group in ref.exclusive:
            if len(group & given) > 1:
                raise Bad('exclusive')
    given = set()
    while i < len(words):
        word = words[i][0]
        if word.startswith('-') and not word == '-':
            name, eq, val = word.partition('=')
            words[i:i + 1] = [(name, False)] + ([(val, True)] if eq else [])
            i += 1
            names = [name] if name.startswith('--') else ['-' + c for c in name[1:]]
            waiting = None
            for n in names:
                if waiting:
                    raise Bad('no value')
                known = [o for k, o in ref.options.items() if n == k]
                if not known:
                    raise Bad('unknown option')
                if known[0][1] == 'flag':
                    given.add(known[0][0])
                    values[known[0][0]] = fields(known[0][3] if len(known[0]) > 3 else None, True)
                else:
                    waiting = known[0]
            if waiting:
                field, kind, default, *more = waiting
                v = take(name)
                if kind in ('choice', 'number', 'bool'):
                    allowed = {'choice': {'x': 'x', 'y': 'y'}, 'number': {str(n): n for n in range(-9, 100)},
                               'bool': {'true': True, 'yes': True, 'no': False, 'false': False}}[kind]
                    v = [a for t, a in allowed.items() if (v.lower() if kind == 'bool' else v) == t]
                    if not v:
                        raise Bad('illegal value')
                    v = v[0]
                v = fields(more[0] if more else None, v)
                given.add(field)
                values[field] = [*values.get(field, []), v] if kind == 'repeat' else v
            elif eq:
                raise Bad('value of a flag')
        elif word.startswith('+'):
            raise Bad('a field of nothing')
        elif child := [(n, c) for n, c in ref.children.items() if word == n]:
            i += 1
            done()
            out.append(values)
            (_, ref), values, at, given = child[0], {}, 0, set()
        elif at < len(ref.positionals):
            field, count, default, *more = ref.positionals[at]
            got = []
            while i < len(words) and (count == '*' or len(got) < count):
                got.append(fields(more[0] if more else None, take(field)))
            if count != '*' and len(got) != count:
                raise Bad('too few values')
            values[field] = got[0] if count == 1 else got
            at += 1
        else:
            raise Bad('too much')
    if not ref.defined:
        raise Bad('no command')
    done()
    return [*out, values]


def same(S, a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b) and S.all([same(S, x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and S.all([same(S, a[k], b[k]) for k in a])
    if a is None or b is None or isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
        return type(a) == type(b) and a == b
    return a == b


def given(cmd):
    return cmd


def definitions(*commands):
    return command_definitions_from([c(lambda cmd, i=i: ran.append((i, cmd))) for i, c in enumerate(commands)])


ran = []

LAYOUTS = {
    'options': lambda: (
        [command('', flag('-f, --f'), option('-o,--o', default='d'), option('-l', repeatable=True, default=None))],
        Ref({'-f': ('f', 'flag', False), '--f': ('f', 'flag', False), '-o': ('o', 'value', 'd'), '--o': ('o', 'value', 'd'), '-l': ('l', 'repeat', None)})),
    'positionals': lambda: (
        [command('', option('-o', default=None), positional('x'), flag('-f'), positional('rest', n_values='*', default=()))],
        Ref({'-f': ('f', 'flag', False), '-o': ('o', 'value', None)}, [('x', 1, NEED), ('rest', '*', ())])),
    'counted': lambda: (
        [command('', option('-o'), positional('x', n_values=2), flag('-f'), positional('y', default='dy'))],
        Ref({'-f': ('f', 'flag', False), '-o': ('o', 'value', NEED)}, [('x', 2, NEED), ('y', 1, 'dy')])),
    'commands': lambda: (
        [command('a', flag('-f'), positional('x', default='dx')), command('a f', option('-o', default=None)), command('a f o', flag('-f')),
         command('o f', positional('x'))],
        Ref(defined=False, children={
            'a': Ref({'-f': ('f', 'flag', False)}, [('x', 1, 'dx')], {'f': Ref({'-o': ('o', 'value', None)}, (), {'o': Ref({'-f': ('f', 'flag', False)})})}),
            'o': Ref(defined=False, children={'f': Ref({}, [('x', 1, NEED)])})})),
    'fields': lambda: (
        [command('', flag('-f', fields=[flag('+f'), option('+o', default='do')]), option('-o', default=None, fields=[option('+a'), flag('+f')]),
                 positional('x', n_values='*', default=(), fields=[option('+o', default=None)]))],
        Ref({'-f': ('f', 'flag', False, {'+f': ('f', 'flag', False), '+o': ('o', 'value', 'do')}),
             '-o': ('o', 'value', None, {'+a': ('a', 'value', NEED), '+f': ('f', 'flag', False)})}, [('x', '*', (), {'+o': ('o', 'value', None)})])),
    'kinds': lambda: (
        [command('', option('-o', reader=ChoicesReader(['x', 'y']), default=None, mutex_group='g'), option('-n', reader=int, default=7, mutex_group='g'),
                 option('-b', reader=bool, default=None), flag('-f', mutex_group='g'))],
        Ref({'-o': ('o', 'choice', None), '-n': ('n', 'number', 7), '-b': ('b', 'bool', None), '-f': ('f', 'flag', False)}, exclusive=[{'o', 'n', 'f'}])),
    'groups': lambda: (
        [command('', flag('-f', mutex_group='g'), flag('-o', mutex_group='h'), option('-l', default=None, mutex_group='g'), flag('-a', mutex_group='h'))],
        Ref({'-f': ('f', 'flag', False), '-o': ('o', 'flag', False), '-l': ('l', 'value', None), '-a': ('a', 'flag', False)},
            exclusive=[{'f', 'l'}, {'o', 'a'}])),
}


def run(S, layout, words):
    ran.clear()
    commands, ref = LAYOUTS[layout]()
    try:
        want = understand(S, ref, words)
    except Bad as e:
        want = e
    before = list(words)
    cmd = DynamicCommandLine.create(definitions(*commands), words).parse()
    failed = cmd.parse_error
    got, c = [], cmd
    while c is not None:
        got.insert(0, c.arguments)
        c = c.parent
    S.check(same(S, words, before), 'the words are left alone', info=lambda: (before, words))
    inf = lambda: (layout, words, got, want, failed)
    if isinstance(want, Bad):
        S.check(failed is not None, 'a command line that has no meaning is refused', info=inf)
        raised = None
        try:
            cmd.execute()
        except CommandParsingError as e:
            raised = e
        S.check(raised is not None and not ran, 'a command that is refused does not run', info=inf)
        S.reach('refused')
        return
    S.check(failed is None, 'a command line that has a meaning is understood', info=inf)
    S.check(same(S, got, want), 'every argument has the value it is given', info=inf)
    for field, value in want[-1].items():
        S.check(same(S, getattr(cmd, field), value), 'commands have their arguments as attributes', info=inf)
    cmd.execute()
    S.check(ran and ran[-1][1] is cmd, 'the command runs', info=inf)
    S.reach('understood')


def words(S, layout, count, n, alphabet):
    run(S, layout, [S.str(f'word{i}', alphabet, 0, n) for i in range(S.pick('words', list(range(count + 1))))])


def lines(S, layout, items, count, n, alphabet):
    """longer lines, of words of which the names are known"""
    line = []
    for i in range(count):
        item = S.pick(f'item{i}', items)
        if item is None:
            continue
        for part in item:
            line.append(part + S.str(f'value{i}', alphabet, 0, n) if part.endswith('=') else S.str(f'value{i}', alphabet, 0, n) if part == '*' else part)
    run(S, layout, line)


class Boom(Exception):
    pass


def contexts(S):
    """commands below each other, any of which opens a context, and one of which may fail"""
    depth = S.pick('depth', [1, 2, 3])
    opens = [bool(S.flag(f'opens{i}')) for i in range(depth)]
    fails = S.int('fails', -1, 2 * depth)
    log = []

    def make(i):
        def plain(cmd):
            log.append(i)
            if fails == i:
                raise Boom()
            return ('result', i)

        def opened(cmd):
            log.append(i)
            if fails == i:
                raise Boom()
            yield
            log.append(('closed', i))
        return command(' '.join(map(str, range(i + 1))))(opened if opens[i] and i < depth - 1 else plain)
    cmd = DynamicCommandLine.create(command_definitions_from([make(i) for i in range(depth)]), [str(i) for i in range(depth)]).parse()
    raised, result = None, None
    try:
        result = cmd.execute()
    except Boom as e:
        raised = e
    last = depth - 1
    ends = next((i for i in range(depth) if fails == i), None)
    reached = last if ends is None else ends
    want = list(range(reached + 1)) + [('closed', i) for i in range(reached - 1, -1, -1) if opens[i] and i < last]
    S.check(log == want, 'parents run before, and their contexts are closed after, the command', info=lambda: (depth, opens, fails, log, want))
    S.check((raised is not None) == (ends is not None) and (raised is not None or result == ('result', last)), 'the result is that of the command',
            info=lambda: (depth, opens, fails, result))
    S.reach('failed' if raised else 'ran')


def dynamics(S):
    """arguments and commands that are defined while the line is read"""
    how = S.pick('how', ['arguments', 'commands', 'self'])
    words = [S.str(f'word{i}', 'ab', 0, 1) for i in range(S.pick('words', [0, 1, 2, 3]))]
    seen = []
    if how == 'arguments':
        # the first word tells how many words are to follow
        def more(cmd):
            return [positional(f'p{i}') for i in range(2 if cmd.c == 'a' else 1 if cmd.c == 'b' else 0)]
        defs = command_definitions_from([command('', positional('c'), dynamic(more))(lambda cmd: seen.append(cmd))])
        want = None
        if words:
            count = 2 if words[0] == 'a' else 1 if words[0] == 'b' else 0
            want = {'c': words[0], 'help': False, **{f'p{i}': w for i, w in enumerate(words[1:])}} if len(words) == count + 1 else None
    elif how == 'commands':
        @dynamic_commands('cmd')
        def provider(cmd, args):
            return command_definitions_from([command('a', positional('x'))(lambda c: seen.append(c)), command('b')(lambda c: seen.append(c))])
        defs = command_definitions_from([provider])
        want = None
        if words:
            if words[0] == 'a' and len(words) == 2:
                want = {'x': words[1], 'help': False}
            elif words[0] == 'b' and len(words) == 1:
                want = {'help': False}
        words = ['cmd', *words]
    else:
        @dynamic_commands('cmd')
        def provider(cmd, args):
            return command_definitions_from([command('', positional('x', n_values='*', default=()))(lambda c: seen.append(c))])
        defs = command_definitions_from([provider])
        want = {'x': words if words else (), 'help': False}
        words = ['cmd', *words]
    cmd = DynamicCommandLine.create(defs, words).parse()
    inf = lambda: (how, words, want, cmd.parse_error, cmd.arguments)
    if how == 'commands' and want is None and not cmd.parse_error:
        S.check(len(words) == 1, 'a command line that has no meaning is refused', info=inf)  # then there is no command to run
        return
    S.check((cmd.parse_error is None) == (want is not None), 'a command line is understood when it has a meaning', info=inf)
    if want is not None:
        S.check(same(S, cmd.arguments, want), 'every argument has the value it is given', info=inf)
        cmd.execute()
        S.check(len(seen) == 1, 'the command runs', info=inf)
        S.reach('understood')
    else:
        S.reach('refused')


def methods(S):
    """commands made of the signatures of functions"""
    calls = []
    shape = S.pick('function', ['positionals', 'rest', 'keywords', 'all'])
    if shape == 'positionals':
        def f(a_b, c: int, d='dd'):
            calls.append((a_b, c, d))
        text = S.str('a', 'x=-', 0, 2)
        S.assume(S.any([not text.startswith('-'), text == '-']))
        number = S.int('c', 0, 3)
        number = S.conc(number)
        more = [S.str('d', 'xy', 1, 1)] if S.flag('d?') else []
        words = [text, str(number), *more]
        want = (text, number, more[0] if more else 'dd')
    elif shape == 'rest':
        def f(a, *rest, flag_: bool = False, opt='o'):
            calls.append((a, list(rest), flag_, opt))
        rest = [S.str(f'rest{i}', 'xy', 0, 1) for i in range(S.pick('rest', [0, 1, 2]))]
        f_, o = bool(S.flag('flag')), bool(S.flag('opt'))
        words = (['-f'] if f_ else []) + (['--opt=v'] if o else []) + ['va', *rest]
        want = ('va', rest, f_, 'v' if o else 'o')
    elif shape == 'keywords':
        def f(*, need, number: int = 3, yes: bool = True, no: bool = False):
            calls.append((need, number, yes, no))
        words, want = [], ['?', 3, True, False]
        if S.flag('need'):
            want[0] = S.str('need value', 'x=-', 0, 2)
            words += [S.pick('as', ['--need', '-n']), want[0]]
        if S.flag('number'):
            want[1] = S.pick('n', [5, -1])
            words += ['--number', str(want[1])]
        if S.flag('yes'):
            want[2] = S.pick('y', [True, False])
            words += ['--yes', str(want[2])]
        if S.flag('no'):
            want[3] = True
            words += ['--no']
        want = None if isinstance(want[0], str) and want[0] == '?' else tuple(want)
    else:
        def f(a, *, b):
            calls.append((a, b))
        words, want = [], ['?', '?']
        if S.flag('b'):
            words, want[1] = ['-b', S.str('b value', 'xy', 1, 1)], 0
            want[1] = words[1]
        if S.flag('a'):
            words.append('va')
            want[0] = 'va'
        want = tuple(want) if len(words) == 3 else None
    cmd = DynamicCommandLine.create([command_definition_from_method(f, 'go')], ['go', *words]).parse()
    inf = lambda: (shape, words, want, cmd.parse_error, calls)
    S.check((cmd.parse_error is None) == (want is not None), 'a command line is understood when the function can be called with it', info=inf)
    if want is not None:
        cmd.execute()
        S.check(len(calls) == 1 and same(S, list(calls[0]), list(want)), 'the function is called with what is given', info=inf)
        S.reach('understood')
    else:
        S.reach('refused')


def builders(S):
    """fields made of the signatures of functions"""
    def f(self, url, publish: str = None, *, deep: bool = False, level: int = 1, must):
        pass
    chosen = {'url': S.flag('url'), 'publish': S.flag('publish'), 'deep': S.flag('deep'), 'level': S.flag('level'), 'must': S.flag('must')}
    u = S.str('url value', 'x=+', 0, 2)
    text = {'url': ['+url=' + u], 'publish': ['+publish', 'p'], 'deep': ['+deep'], 'level': ['+level=4'], 'must': ['+must=']}
    order = S.pick('order', [list(text), list(text)[::-1]])
    line = ['-r', 'kind'] + [w for k in order if chosen[k] for w in text[k]]
    cmd = DynamicCommandLine.create(command_definitions_from([command('', option('-r', fields=fields_from_method(f)[1:]))(given)]), line).parse()
    possible = S.all([chosen['url'], chosen['must']])
    inf = lambda: (line, cmd.parse_error, cmd.arguments)
    S.check((cmd.parse_error is None) == possible, 'fields without default are required', info=inf)
    if possible:
        want = {'value': 'kind', 'url': u, 'publish': 'p' if chosen['publish'] else None, 'deep': bool(chosen['deep']),
                'level': 4 if chosen['level'] else 1, 'must': ''}
        S.check(same(S, cmd.arguments['r'], want), 'every field has the value it is given', info=inf)
        S.reach('understood')
    else:
        S.reach('refused')


def cases(tier):
    t = tier == 'thorough'
    out = []
    both = ['understood', 'refused']
    for layout, alphabet in (('options', '-fo=l'), ('positionals', '-fo=x'), ('counted', '-fo=x'), ('commands', '-afo'), ('fields', '-+fo=')):
        out.append(Case(f'words {layout}', words, dict(layout=layout, count=4 if t else 3, n=3, alphabet=alphabet),
                        bounds=f'up to {4 if t else 3} words of up to 3 characters of {alphabet}', reach=both, timeout=2400 if t else 500, best_effort=t))
    L = {'options': [None, ('-f',), ('--f',), ('-fo', '*'), ('--o=',), ('-l', '*'), ('-fl=',), ('-o=',), ('--x',), ('-f=',)],
         'positionals': [None, ('*',), ('-f',), ('-o', '*'), ('',), ('-',)],
         'counted': [None, ('*',), ('*', 'z'), ('-f',), ('-o=',), ('',)],
         'commands': [None, ('a',), ('o',), ('f',), ('-f',), ('-o', '*'), ('',)],
         'fields': [None, ('-f',), ('+f',), ('+o=',), ('+a=',), ('-o', '*'), ('*',), ('-fo=',), ('+o', '*')],
         'kinds': [None, ('-f',), ('-o', '*'), ('-n', '*'), ('-o=',), ('-b', 'yes'), ('-b=False',), ('-b', '*')],
         'groups': [None, ('-f',), ('-o',), ('-l', '*'), ('-a',), ('-fo',)]}
    for layout, items in L.items():
        count = (5 if len(items) < 8 else 4) if t else 4 if len(items) < 8 else 3
        out.append(Case(f'lines {layout}', lines, dict(layout=layout, items=items, count=count, n=1, alphabet={'kinds': 'x1-', 'fields': '+x'}.get(layout, '-=')),
                        bounds=f'{count} items of {len(items)}, with values of up to a character', reach=both, timeout=2400 if t else 500, best_effort=t))
    out.append(Case('contexts', contexts, {}, bounds='up to three commands below each other', reach=['ran', 'failed'], timeout=200))
    out.append(Case('dynamic', dynamics, {}, bounds='up to three words', reach=both, timeout=200))
    out.append(Case('methods', methods, {}, bounds='four signatures', reach=both, timeout=200))
    out.append(Case('builders', builders, {}, bounds='a signature with five arguments, each given or not', reach=both, timeout=200))
    return out
