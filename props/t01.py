"""T01: configuration written as TOML reads back equal, and TOML documents mean what the format says."""
from pkm.config import toml

from props._std import instrumented
from sx.session import Case, Diverged

tomllib = instrumented('tomllib')

PROPERTY = 'T01'
ASSUMPTIONS = ['the parser of the standard library (tomllib) says what a document means; pkm keeps dates as their text']


def std(text):
    """what the standard library says the text means, None if it is not TOML"""
    try:
        return tomllib.loads(text)
    except (tomllib.TOMLDecodeError, RecursionError):
        return None


def same(a, b):
    """equal, types included"""
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and all(k in a and same(a[k], v) for k, v in b.items())
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(a, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(b, float):
        return isinstance(a, float) and (a == b or a != a and b != b)
    if isinstance(b, (int, str)):
        return isinstance(b, int) == isinstance(a, int) and isinstance(b, str) == isinstance(a, str) and a == b
    return str(a).upper().replace('T', ' ').replace('Z', '+00:00') == str(b)  # date and time


CHARS = '"\\\'\n\x00#a= \x7f\r\u00e9'


def string(S, name, n, alphabet=CHARS):
    return S.str(name, alphabet, 0, n)


def round_trip(S, data):
    text = toml.dumps(data)
    back, dumps = toml.loads(text)
    S.check(same(back, data), 'what is written reads back equal', info=lambda: (data, text, back))
    S.check(same(std(text), data), 'what is written is TOML that means the same', info=lambda: (data, text))
    S.check(dumps(back) == text, 'writing what was read changes nothing', info=lambda: (text, dumps(back)))


def strings(S, where, n):
    s = string(S, 's', n)
    S.const_hash()
    data = {'value': {'k': s}, 'top': {'k': s, 'l': 1}, 'list': {'t': {'k': ['x', s]}}, 'deep': {'t': {'u': {'k': s}}},
            'long': {'t': {'k': s + 'x' * 41}}, 'array': {'t': [{'k': s}]}}[where]
    round_trip(S, data)
    if '\\' in s:
        S.reach('escaped')


def keys(S, where, n):
    s = string(S, 's', n, '"\\.a\n -\u0663')
    S.const_hash()
    data = {'key': {s: 1}, 'table': {s: {'k': 1}}, 'sub': {'t': {s: {'k': 1}}}, 'array': {s: [{'k': 1}]}, 'inner': {'t': {'u': [{s: {'k': 1}}]}},
            'inline': {'t': {'u': {s: [1]}}}}[where]
    round_trip(S, data)
    if '"' in s:
        S.reach('quoted')


def shape(S, name, depth, kinds=('int', 'str', 'float', 'bool', 'list', 'table', 'array')):
    k = S.pick(name, kinds if depth > 0 else ('int', 'str'))
    if k in ('int', 'str', 'float', 'bool'):
        return {'int': 7, 'str': 'x', 'float': -0.5, 'bool': True}[k]
    n = S.int(name + 'n', 0, 2).__index__()
    if k == 'list':
        return [shape(S, f'{name}{i}', depth - 1) for i in range(n)]
    if k == 'array':
        return [table(S, f'{name}{i}', depth - 1, 1) for i in range(n)]
    return table(S, name, depth - 1, n)


def table(S, name, depth, n):
    return {'ab'[i]: shape(S, f'{name}{"ab"[i]}', depth) for i in range(n)}


def shapes(S, first, depth):
    data = {'x': shape(S, 'x', depth, (first,)), 'y': shape(S, 'y', 1 if depth > 2 else 0)}
    round_trip(S, data)
    S.reach('anything')


def numbers(S):
    round_trip(S, {'a': S.int('a', -110, 110), 'b': [True, False]})
    S.reach('anything')


def floats(S):
    round_trip(S, {'c': S.pick('c', [0.5, -1e22, 1e-7, float('inf'), float('-inf'), float('nan'), 3.0])})
    S.reach('anything')


# ---- reading

def reads(S, text, partial=False):
    """the text means for pkm what it means for the standard library"""
    expected = std(text)
    S.trace(expected is None)
    try:
        data, dumps = S.bounded(lambda: toml.loads(text), 20_000)
    except Diverged:
        return S.check(False, 'reading ends', info=lambda: text)
    except Exception as e:
        S.check(expected is None, 'TOML is read', info=lambda: (text, expected, str(e)))
        return
    if expected is None:
        return S.reach('lenient')
    S.check(same(data, expected), 'a document means what the format says', info=lambda: (text, data, expected))
    again = dumps(data)
    S.check(same(std(again), expected), 'it is written as TOML with the same meaning', info=lambda: (text, again))
    S.check(dumps(toml.loads(again)[0]) == again or toml.loads(again)[1](toml.loads(again)[0]) == again, 'rewriting settles', info=lambda: (text, again))
    S.reach('read')


TEXTS = {'basic': ('a = "', '"\\nu0e\'#', '"\nb = 1'), 'multi': ('a = """', '"\\n \n', '"""\nb = 1'), 'literal': ("a = '", '\'\\"n#', "'\nb = 1"),
         'multiliteral': ("a = '''", '\'\\\n"', "'''\nb = 1"), 'number': ('a = ', '01_.e-+xf', ' # c\nb = 1'), 'number at end': ('', '', ''),
         'key': ('', 'a."\' -', ' = 1'), 'header': ('[', 'a."[] ', ']\nb = 1'), 'date': ('a = 1979-05-2', '017T: .Z', ''),
         'list': ('a = [', '1, \n#[]', ']'), 'inline': ('a = {', 'b=1, .}{', '}'), 'comment': ('a = 1', '\n #b=1', '\n[t]\nc = 2'),
         'tail': ('[t]\na = "x"', '\n #[t]', ''), 'after': ('a.b = "x" ', '#\n" c.=', '\nz = 1'), 'two headers': ('[a.b]\nc = 1\n[', 'ab.]\n=[', ']\nd = 1')}


def texts(S, which, n):
    head, alphabet, tail = TEXTS[which]
    if which == 'number at end':
        head, alphabet, tail = 'a = ', '01_.e-xbfTt', ''
    S.const_hash()
    reads(S, head + S.str('s', alphabet, 0, n) + tail)


LINES = ['[a]', '[a.b]', '[[a]]', '[[a.b]]', '[b]', 'x = 1', 'a.x = 1', 'b.a.x = "s"', 'y = {z = 1, w = [2]}', '# note', '']


def lines(S, first, n):
    chosen = [first] + [S.pick(f'line {i}', LINES) for i in range(1, n)]
    reads(S, '\n'.join(chosen) + ('\n' if S.flag('newline at the end') else ''))


def cases(tier):
    t = tier == 'thorough'
    out = []
    for where in ('value', 'top', 'list', 'deep', 'long', 'array'):
        out.append(Case(f'string in {where}', strings, {'where': where, 'n': (6 if where == 'value' else 5) if t else 4},
                        bounds='any string of that many of twelve kinds of characters', reach=['escaped']))
    for where in ('key', 'table', 'sub', 'array', 'inner', 'inline'):
        out.append(Case(f'key of {where}', keys, {'where': where, 'n': 5 if t else 4}, bounds='any key of that many of eight kinds of characters',
                        reach=['quoted']))
    for first in ('list', 'table', 'array', 'int', 'float'):
        out.append(Case(f'shapes {first}', shapes, {'first': first, 'depth': 2}, bounds='any data of that depth', reach=['anything']))
    out.append(Case('numbers', numbers, {}, bounds='integers up to 110', reach=['anything']))
    out.append(Case('floats', floats, {}, bounds='floats of every form', reach=['anything']))
    for which in TEXTS:
        n = 5
        out.append(Case(f'text {which}', texts, {'which': which, 'n': n + (1 if t else 0)}, bounds='any text of that many of the characters that matter there',
                        reach=['read']))
    for first in LINES:
        out.append(Case(f'lines {first!r}', lines, {'first': first, 'n': 5 if t else 4}, bounds='any documents of that many lines of eleven kinds', reach=['read']))
    return out
