"""T02: editing a TOML document changes what was edited and leaves the rest, comments and spelling included, as it is."""
import copy

from pkm.config import toml
from pkm.config.configfiles import TomlConfigIO

from props.t01 import same, std
from sx.session import Case

PROPERTY = 'T02'
ASSUMPTIONS = ['the parser of the standard library (tomllib) says what a document means',
               'white space around commas and between tables is not a part of the guarantee']

# {k}: the key, {c}: a comment that belongs to it
LINES = ['{k} = 1_000 {c}', '{c}p\n{k} = "\\u0041" {c}', "{k} = 'l\\t' {c}", '{k} = [ # {k}x\n  0x1F, {c}\n  "b"\n] {c}z', '{k} = {{x = 1, "y z" = [1e0]}} {c}',
         '  "{k}" = +1.50', '{k}.l.m = 2 {c}', '\n\n{c}p\n\n{k} = true']
RAW = [('1_000',), ('"\\u0041"',), ("'l\\t'",), ('0x1F',), ('1e0', 'y z'), ('+1.50',), ('{k}.l.m = 2', 'l', 'm'), ('true',)]  # spelling, rest of the key
HEADERS = [('[{h}] {c}',), ('{c}p\n  [ {h} . "s" ] {c}', 's'), ('[[{h}]] {c}', 0), ('[{h}.s.r]', 's', 'r'), ('[{h}]\n\n{c}\n\n[{h}.s] {c}s', 's')]
NEW = {'text': 'new', 'number': 7, 'list': ['p', 'q'], 'table': {'n': 1}, 'tables': [{'n': 1}, {'n': 2}], 'nested': {'n': {'o': [1]}}}


def document(S, before, headers, counts):
    """the text; (spelling, key) of its values; (comment, key it belongs to)"""
    text, values, comments = '', [], []
    names = iter(['k0', 'k1', 'k2', 'k3', 'k4'])

    def add(form, name, key):
        nonlocal text
        line = form.format(k=name, h=name, c=f'# {name}')
        text += line + '\n'
        comments.extend((c, key) for c in comments_of(line))

    def line(within):
        k = next(names)
        i = S.pick(f'line {k}', range(len(LINES)))
        values.append((RAW[i][0].format(k=k), (*within, k, *RAW[i][1:])))
        add(LINES[i], k, values[-1][1] if '.l.m' in RAW[i][0] else (*within, k))

    if S.flag('head'):
        text += '# head\n\n'
        comments.append(('# head', ('head',)))
    for _ in range(before):
        line(())
    for name, h, n in zip('tv', headers, counts):
        key = (name, *HEADERS[h][1:])
        add(HEADERS[h][0], name, key)
        for _ in range(n):
            line(key)
    if S.flag('tail'):
        text += '# tail'
        comments.append(('# tail', ('tail',)))
    return text, values, comments


def comments_of(text):
    return [part.strip() for part in text.replace('# ', '\n# ').split('\n') if part.startswith('# ')]


def places(data, at=()):
    """where something can be edited"""
    for k, v in data.items() if isinstance(data, dict) else enumerate(data):
        yield (*at, k)
        if isinstance(v, (dict, list)):
            yield from places(v, (*at, k))


def edit(S, data, expected, op):
    where = S.pick('where', [w for w in places(data) if op != 'add' or isinstance(w[-1], str)])
    new = NEW[S.pick('new', tuple(NEW))] if op != 'delete' else None
    for d in (data, expected):
        for k in where[:-1]:
            d = d[k]
        if op == 'delete':
            del d[where[-1]]
        else:
            d[where[-1] if op == 'set' else 'added'] = copy.deepcopy(new)
    return where


def editing(S, before, headers, counts, op, files=False):
    text, values, comments = document(S, before, headers, counts)
    if std(text) is None:
        return S.reach('not TOML')
    path = S.scratch() / 'f.toml' if files else None
    if files:
        path.write_text(text)
        data = TomlConfigIO().read(path)
    else:
        data, dumps = toml.loads(text)
    expected = copy.deepcopy(data)
    where = edit(S, data, expected, op) if op != 'nothing' else ()
    S.trace(text, where)
    if files:
        TomlConfigIO().write(path, data)
        out = path.read_text()
    else:
        out = dumps(data)
    S.check(same(std(out), expected), 'the document means what the data says', info=lambda: (text, where, out, expected))

    # what belongs to the place of the edit; those that follow a removed item of a list move to other places
    scope = None if op in ('nothing', 'add') else where[:-1] if isinstance(where[-1], int) else where

    def concerned(key):
        return scope is not None and key[:len(scope)] == scope
    kept, left = [c for c, key in comments if not concerned(key)], comments_of(out)
    S.check(all(c in left for c in kept), 'comments of what was not edited stay', info=lambda: (text, where, out, kept, left))
    S.check(all(left.count(c) == 1 for c in left), 'no comment is repeated', info=lambda: (text, where, out))
    S.check(all(raw in out for raw, key in values if not concerned(key)), 'what was not edited is spelled as it was', info=lambda: (text, where, out))
    if op == 'nothing':
        S.check(left == [c for c, _ in comments], 'comments keep their order', info=lambda: (text, out))
        S.check(''.join(out.split()) == ''.join(text.split()), 'nothing but white space changes', info=lambda: (text, out))
    back, again = toml.loads(out)
    S.check(again(back) == out, 'writing again changes nothing', info=lambda: (text, out, again(back)))
    S.reach('edited')


KINDS = {'1': (1, 'int'), '1.0': (1.0, 'float'), 'true': (True, 'bool'), '0x0': (0, 'int'), '-0.0': (-0.0, 'float'), 'false': (False, 'bool'),
         '2020-01-01': (toml.TimeLiteral('2020-01-01'), 'date'), '"2020-01-01"': ('2020-01-01', 'str'), "'1'": ('1', 'str'), '""': ('', 'str')}
PLACES = {'k = {v} # c': ('k',), '[t]\nk = {v} # c': ('t', 'k'), 'l = [0, {v}] # c': ('l', 1), 't = {{k = {v}}} # c': ('t', 'k'), 'a.b = {v} # c': ('a', 'b'),
          '[[l]]\nk = {v} # c': ('l', 0, 'k')}


def kinds(S):
    """values that are replaced by those of another type are written, even when they are equal"""
    old, new = S.pick('old', tuple(KINDS)), S.pick('new', tuple(KINDS))
    place = S.pick('place', tuple(PLACES))
    text = place.format(v=old) + '\n'
    data, dumps = toml.loads(text)
    d = data
    for k in PLACES[place][:-1]:
        d = d[k]
    d[PLACES[place][-1]] = KINDS[new][0]
    out = dumps(data)
    d = std(out)
    for k in PLACES[place]:
        d = d[k]
    value, kind = KINDS[new]
    S.trace(text, out)
    S.reach('edited')
    S.check(type(d).__name__ == kind and (str(d) == str(value)), 'the document means what the data says', info=lambda: (text, new, out))
    S.check(old != new or comments_of(out) == ['# c'], 'comments of what was not edited stay', info=lambda: (text, new, out))
    S.check(old != new or old in out, 'what was not edited is spelled as it was', info=lambda: (text, new, out))


def cases(tier):
    t = tier == 'thorough'
    out = []
    shapes = [(2, (), ()), (1, (0,), (1,)), (0, (0, 1), (1, 1)), (0, (2, 2), (1, 1)), (1, (3,), (1,)), (0, (4, 0), (1, 0)), (0, (1, 3), (0, 1)), (0, (2, 4), (1, 1))]
    if t:
        shapes += [(3, (), ()), (1, (0, 1), (1, 1)), (0, (0, 2), (2, 1)), (0, (4, 1), (1, 2)), (1, (2,), (2,))]
    for op in ('nothing', 'set', 'add', 'delete'):
        for before, headers, counts in shapes:
            name = f'{op} in {before} {",".join(HEADERS[h][0].split(" ")[0].replace(chr(10), " ") for h in headers)} {counts}'
            out.append(Case(name, editing, dict(before=before, headers=headers, counts=counts, op=op),
                            bounds='documents of up to two values of eight forms under up to two headers of five forms, any edit', reach=['edited'], best_effort=t,
                            timeout=400.0 if t else 240.0))
    out.append(Case('in a file', editing, dict(before=1, headers=(0,), counts=(1,), op='set', files=True), bounds='the same, in a file', reach=['edited']))
    out.append(Case('kinds', kinds, {}, bounds='scalars replaced by those of any type, at six places', reach=['edited']))
    return out
