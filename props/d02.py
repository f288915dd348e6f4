"""D02: environment markers evaluate as PEP 508 says: precedence, comparison of versions and of other texts, extras."""
from pkm.api.dependencies.env_markers import EnvironmentMarker
from pkm.api.dependencies.dependency import Dependency
from pkm.api.versions.version import StandardVersion

from props.v03 import denotes
from sx.session import Case

PROPERTY = 'D02'
ASSUMPTIONS = ['variables have values of at most 6 characters; texts that merely start with a version are not explored']


class Env:
    def __init__(self, markers):
        self.markers = markers


_VARS = ['os_name', 'sys_platform', 'platform_machine', 'implementation_name']


class Ref:
    """an independent reader of the expression grammar: or < and < atom | ( expr ); it shares nothing with pkm"""

    def __init__(self, tokens, values):
        self.t, self.v, self.i = tokens, values, 0

    def expr(self):
        r = self.conj()
        while self.i < len(self.t) and self.t[self.i] == 'or':
            self.i += 1
            x = self.conj()
            r = r or x
        return r

    def conj(self):
        r = self.atom()
        while self.i < len(self.t) and self.t[self.i] == 'and':
            self.i += 1
            x = self.atom()
            r = r and x
        return r

    def atom(self):
        t = self.t[self.i]
        self.i += 1
        if t == '(':
            r = self.expr()
            self.i += 1
            return r
        return self.v[t]


def _shapes(n):
    """parenthesizations of n atoms, as token templates with operator slots"""
    out = {2: ['0 o 1', '(0 o 1)'],
           3: ['0 o 1 o 2', '(0 o 1) o 2', '0 o (1 o 2)', '(0) o 1 o 2', '(0 o 1 o 2)'],
           4: ['0 o 1 o 2 o 3', '(0 o 1) o 2 o 3', '0 o (1 o 2) o 3', '0 o 1 o (2 o 3)', '(0 o 1) o (2 o 3)',
               '0 o (1 o 2 o 3)', '(0 o 1 o 2) o 3', '0 o (1 o (2 o 3))', '((0 o 1) o 2) o 3', '0 o ((1 o 2) o 3)']}
    return out[n]


def logic(S, n):
    shape = S.pick('shape', _shapes(n))
    spaced = S.pick('spaces', [' ', '  '])
    env, vals, atoms = {}, {}, []
    for i in range(n):
        x = S.str(f'v{i}', 'ab', 1, 1)
        env[_VARS[i]] = x
        vals[str(i)] = x == 'a'
        atoms.append(_VARS[i] + S.pick(f'q{i}', ["=='a'", '!= "b"']) if i < 2 else _VARS[i] + " == 'a'")
    tokens, text, k = [], '', 0
    for c in shape:
        if c in '()':
            tokens.append(c)
            text += c
        elif c == 'o':
            op = S.pick(f'op{k}', ['and', 'or'])
            k += 1
            tokens.append(op)
            text += op
        elif c == ' ':
            text += spaced
        else:
            tokens.append(c)
            text += atoms[int(c)]
    want = bool(Ref(tokens, {k: bool(x) for k, x in vals.items()}).expr())
    got = bool(EnvironmentMarker.parse_pep508(text).evaluate_on(Env(env), []))
    S.trace(text, got)
    S.reach('true' if want else 'false')
    S.check(got == want, 'a marker expression does not evaluate with the precedence of PEP 508',
            info=lambda: [text, env, got])


def _release(S, n, k):
    ds = [S.str(f'{n}{i}', '0123456789', 1, 1) for i in range(k)]
    return '.'.join(ds), StandardVersion(tuple([int(x) for x in ds]))


def versions(S, op, la, lb, flipped):
    at, a = _release(S, 'a', la)
    bt, b = _release(S, 'b', lb)
    var = 'python_full_version'
    text = f"{var}{op}'{bt}'" if not flipped else f"'{bt}' {op} {var}"
    got = bool(EnvironmentMarker.parse_pep508(text).evaluate_on(Env({var: at}), []))
    l, r = (b, a) if flipped else (a, b)
    want = denotes(S, op, r, l)
    S.trace(text, got)
    S.reach('true' if want else 'false')
    S.check(got == want, 'a version marker does not compare versions', info=lambda: [text, at, got])


def strings(S, op, flipped):
    a = S.str('a', 'bJxz_', 0, 3)
    b = S.str('b', 'bJxz_', 1, 3)
    text = f"platform_python_implementation {op} '{b}'" if not flipped else f"'{b}' {op} platform_python_implementation"
    got = bool(EnvironmentMarker.parse_pep508(text).evaluate_on(Env({'platform_python_implementation': a}), []))
    l, r = (b, a) if flipped else (a, b)
    want = {'==': lambda: l == r, '!=': lambda: l != r, '<': lambda: l < r, '>': lambda: l > r,
            '<=': lambda: l <= r, '>=': lambda: l >= r, '===': lambda: l == r, 'in': lambda: l in r,
            'not in': lambda: l not in r, 'not   in': lambda: l not in r}[op]()
    want = bool(want)
    S.trace(text, got)
    S.reach('true' if want else 'false')
    S.check(got == want, 'a text marker does not compare texts', info=lambda: [text, a, got])


def mixed(S, op):
    """a version against something that is not one"""
    at, a = _release(S, 'a', 1)
    b = S.str('b', 'bx', 1, 2)
    flip = S.flag('flip')
    var = 'platform_release'
    val, lit = (b, at) if flip else (at, b)
    got = bool(EnvironmentMarker.parse_pep508(f"{var} {op} '{lit}'").evaluate_on(Env({var: val}), []))
    want = {'==': lambda: False, '!=': lambda: True, '<': lambda: val < lit, '>': lambda: val > lit,
            '<=': lambda: val <= lit, '>=': lambda: val >= lit, '===': lambda: False}[op]()
    want = bool(want)
    S.trace(val, lit, got)
    S.reach('done')
    S.check(got == want, 'a version is not compared as a text with what is no version', info=lambda: [val, op, lit, got])


def literal(S, quote, n):
    """every character PEP 508 allows in a literal"""
    other = '"' if quote == "'" else "'"
    chars = " \tABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789().{}-_*#:;,/?[]!~`@$%^&=+|<>" + other
    a = S.str('a', chars, n, n)
    v = S.str('v', chars, 1, 1)
    S.assume(S.not_(S.any([a[0] == c for c in '0123456789 \tvV(\'"'])))  # not the start of a version
    got = bool(EnvironmentMarker.parse_pep508(f'os_name == {quote}{a}{quote}').evaluate_on(Env({'os_name': v}), []))
    S.trace(got)
    S.reach('true' if got else 'false')
    S.check(got == (v == a), 'a literal is not read as it stands', info=lambda: [a, v, got])


def extras(S, n, op):
    xs = [S.str(f'x{i}', 'abJ', 1, 2) for i in range(n)]
    want_x = S.str('w', 'abJ', 1, 2)
    flip = S.flag('flip')
    text = f"'{want_x}'{op}extra" if flip else f"extra {op} '{want_x}'"
    want = bool(S.any([x == want_x for x in xs]))
    dep = Dependency.parse('a>1; ' + text)
    for extra_list in (list(xs), list(reversed(xs))):
        got = bool(dep.is_applicable_for(Env({}), extra_list))
        S.check(got == want, 'an extra marker is not whether the extra is requested', info=lambda: [text, extra_list])
    S.trace(text, want)
    S.reach('true' if want else 'false')
    none = Dependency.parse('a>1')
    S.check(none.is_applicable_for(Env({}), xs), 'a requirement without marker does not apply')
    if n == 0:
        S.check(not dep.is_applicable_for(Env({}), None), 'an extra applies where none is requested')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (2, 3, 4):
        out.append(Case(f'logic_{n}', logic, dict(n=n), f'{n} conditions, every choice of and/or, '
                        f'{len(_shapes(n))} parenthesizations, every truth assignment', reach=('true', 'false'),
                        weight=n * 3, timeout=1500 if deep else 240))
    for op in ('==', '!=', '<', '<=', '>', '>=', '~='):
        for flipped in (False, True):
            for la, lb in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3)):
                if op == '~=' and (la if flipped else lb) < 2:
                    continue
                out.append(Case(f'version_{op}_{la}_{lb}_{int(flipped)}', versions,
                                dict(op=op, la=la, lb=lb, flipped=flipped),
                                f'versions of {la} and {lb} one-digit numbers', reach=('true', 'false')))
        if op != '~=':
            out.append(Case(f'mixed_{op}', mixed, dict(op=op), 'a one-digit version against a text of 1-2 letters',
                            reach=('done',)))
    for op in ('==', '!=', '<', '<=', '>', '>=', '===', 'in', 'not in', 'not   in'):
        for flipped in (False, True):
            out.append(Case(f'text_{op}_{int(flipped)}', strings, dict(op=op, flipped=flipped),
                            'texts of 0-3 and 1-3 characters over bJxz_', reach=('true', 'false'), weight=3))
    for q in '\'"':
        for n in (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3):
            out.append(Case(f'literal_{ord(q)}_{n}', literal, dict(quote=q, n=n), f'literals of {n} legal characters',
                            reach=('true', 'false') if n == 1 else ('false',), weight=5))
    for n in (0, 1, 2):
        for op in ('==', '==='):
            out.append(Case(f'extra_{n}_{op}', extras, dict(n=n, op=op), f'{n} requested extras of 1-2 characters',
                            reach=('true', 'false') if n else ('false',), weight=3))
    return out

