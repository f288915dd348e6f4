"""A backtracking matcher for Python regular expressions over symbolic strings (the parse tree is re's own)."""
from __future__ import annotations

import re

try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc

from .values import SymInt, SymStr, ch_eq, ch_pred, chars_of, mkstr, seq_eq, conc

_CATS = {
    sc.CATEGORY_DIGIT: lambda c: c.isdecimal(),
    sc.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    sc.CATEGORY_SPACE: lambda c: c.isspace(),
    sc.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    sc.CATEGORY_WORD: lambda c: c.isalnum() or c == '_',
    sc.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_'),
}


class Unsupported(Exception):
    pass


def _variants(c, flags):
    if flags & re.I:
        return {c, c.lower(), c.upper()}
    return {c}


def _in_pred(items, flags):
    neg = False
    tests = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(lambda c, o=av: any(ord(x) == o for x in _variants(c, flags) if len(x) == 1))
        elif op is sc.RANGE:
            tests.append(lambda c, lo=av[0], hi=av[1]: any(lo <= ord(x) <= hi for x in _variants(c, flags)
                                                          if len(x) == 1))
        elif op is sc.CATEGORY:
            if flags & re.A:
                tests.append(lambda c, f=_CATS[av], n=str(av).find('NOT') >= 0:
                             (f(c) if ord(c) < 128 else n))
            else:
                tests.append(_CATS[av])
        else:
            raise Unsupported(str(op))
    return lambda c: any(t(c) for t in tests) != neg


class Matcher:
    def __init__(self, pattern: str, flags: int):
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, flags & ~re.U if False else flags)
        self.flags = self.tree.state.flags
        self.groupindex = dict(self.tree.state.groupdict)
        self.ngroups = self.tree.state.groups - 1
        self._preds = {}

    def char_pred(self, node_id, op, av, flags):
        p = self._preds.get(node_id)
        if p is None:
            if op is sc.LITERAL:
                p = lambda c: any(len(x) == 1 and ord(x) == av for x in _variants(c, flags))
            elif op is sc.NOT_LITERAL:
                p = lambda c: not any(len(x) == 1 and ord(x) == av for x in _variants(c, flags))
            elif op is sc.ANY:
                p = (lambda c: True) if flags & re.S else (lambda c: c != '\n')
            else:
                p = _in_pred(av, flags)
            self._preds[node_id] = p
        return p

    def match_at(self, cs, pos, full=False, endpos=None):
        n = len(cs) if endpos is None else min(endpos, len(cs))

        def final(p, g):
            if full and p != n:
                return None
            return p, g

        return self._m(list(self.tree), 0, pos, {}, final, cs, n, self.flags)

    def _m(self, seq, i, pos, g, k, cs, n, flags):
        if i == len(seq):
            return k(pos, g)
        op, av = seq[i]
        if op is sc.LITERAL or op is sc.NOT_LITERAL or op is sc.ANY or op is sc.IN:
            if pos >= n:
                return None
            if not ch_pred(cs[pos], self.char_pred((id(seq[i]), flags), op, av, flags)):
                return None
            return self._m(seq, i + 1, pos + 1, g, k, cs, n, flags)
        nxt = lambda p, g2: self._m(seq, i + 1, p, g2, k, cs, n, flags)
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            f2 = (flags | add) & ~rem

            def close(p, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (pos, p)
                return nxt(p, g2)

            return self._m(list(sub), 0, pos, g, close, cs, n, f2)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, pos, g, nxt, cs, n, flags)
                if r is not None:
                    return r
            return None
        if op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
            lo, hi, sub = av
            sub = list(sub)

            def rep(count, p, g2):
                def more():
                    if hi is not sc.MAXREPEAT and count >= hi:
                        return None
                    return self._m(sub, 0, p, g2,
                                   lambda p3, g3: None if (p3 == p and count >= lo) else rep(count + 1, p3, g3),
                                   cs, n, flags)

                def stop():
                    return nxt(p, g2) if count >= lo else None

                first, second = (more, stop) if op is sc.MAX_REPEAT else (stop, more)
                r = first()
                return r if r is not None else second()

            return rep(0, pos, g)
        if op is sc.AT:
            if not self._at(av, pos, cs, n, flags):
                return None
            return nxt(pos, g)
        if op is sc.GROUPREF:
            if av not in g:
                return None
            s, e = g[av]
            ref = cs[s:e]
            if pos + len(ref) > n or not seq_eq(cs[pos:pos + len(ref)], ref):
                return None
            return nxt(pos + len(ref), g)
        if op is sc.GROUPREF_EXISTS:
            gid, yes, no = av
            branch = yes if gid in g else (no or [])
            return self._m(list(branch), 0, pos, g, nxt, cs, n, flags)
        if op is sc.ASSERT or op is sc.ASSERT_NOT:
            direction, sub = av
            if direction < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('lookbehind')
                start = pos - w[0]
                r = None if start < 0 else self._m(list(sub), 0, start, g, lambda p, g2: (p, g2), cs, n, flags)
            else:
                r = self._m(list(sub), 0, pos, g, lambda p, g2: (p, g2), cs, n, flags)
            if (r is not None) != (op is sc.ASSERT):
                return None
            return nxt(pos, r[1] if r is not None else g)
        if op is getattr(sc, 'ATOMIC_GROUP', None):
            r = self._m(list(av), 0, pos, g, lambda p, g2: (p, g2), cs, n, flags)
            return None if r is None else nxt(*r)
        if op is getattr(sc, 'POSSESSIVE_REPEAT', None):
            lo, hi, sub = av
            count, p, g2 = 0, pos, g
            while hi is sc.MAXREPEAT or count < hi:
                r = self._m(list(sub), 0, p, g2, lambda p3, g3: (p3, g3), cs, n, flags)
                if r is None or r[0] == p:
                    break
                p, g2 = r
                count += 1
            return nxt(p, g2) if count >= lo else None
        raise Unsupported(str(op))

    def _at(self, av, pos, cs, n, flags):
        if av is sc.AT_BEGINNING:
            return pos == 0 or (flags & re.M and bool(ch_eq(cs[pos - 1], '\n')))
        if av is sc.AT_BEGINNING_STRING:
            return pos == 0
        if av is sc.AT_END:
            if pos == n or (pos == n - 1 and ch_eq(cs[pos], '\n')):
                return True
            return bool(flags & re.M) and bool(ch_eq(cs[pos], '\n'))
        if av is sc.AT_END_STRING:
            return pos == n
        if av is sc.AT_BOUNDARY or av is sc.AT_NON_BOUNDARY:
            w = lambda i: 0 <= i < n and bool(ch_pred(cs[i], lambda c: c.isalnum() or c == '_'))
            return (w(pos - 1) != w(pos)) == (av is sc.AT_BOUNDARY)
        raise Unsupported(str(av))


_CACHE = {}


def matcher(p: re.Pattern) -> Matcher:
    key = (p.pattern, p.flags)
    m = _CACHE.get(key)
    if m is None:
        m = _CACHE[key] = Matcher(p.pattern, p.flags)
    return m


class SymMatch:
    def __init__(self, m, string, spans, pattern, pos):
        self._m, self.string, self._spans, self.re = m, string, spans, pattern
        self.pos = pos

    def _gid(self, g):
        if isinstance(g, str):
            if g not in self._m.groupindex:
                raise IndexError('no such group')
            return self._m.groupindex[g]
        if g > self._m.ngroups:
            raise IndexError('no such group')
        return g

    def _get(self, g, default=None):
        s = self._spans.get(self._gid(g))
        return default if s is None else self.string[s[0]:s[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self._m.ngroups + 1))

    def groupdict(self, default=None):
        return {n: self._get(i, default) for n, i in self._m.groupindex.items()}

    def span(self, g=0):
        return self._spans.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        ids = [i for i in self._spans if i]
        return max(ids) if ids else None


def _result(m, p, s, r, start):
    if r is None:
        return None
    end, g = r
    spans = dict(g)
    spans[0] = (start, end)
    return SymMatch(m, s, spans, p, start)


def _bounds(s, pos, endpos):
    n = len(s)
    return min(conc(pos), n), n if endpos is None else min(conc(endpos), n)


def p_match(p, s, pos=0, endpos=None):
    m = matcher(p)
    pos, e = _bounds(s, pos, endpos)
    return _result(m, p, s, m.match_at(chars_of(s), pos, False, e), pos)


def p_fullmatch(p, s, pos=0, endpos=None):
    m = matcher(p)
    pos, e = _bounds(s, pos, endpos)
    return _result(m, p, s, m.match_at(chars_of(s), pos, True, e), pos)


def p_search(p, s, pos=0, endpos=None):
    m = matcher(p)
    cs = chars_of(s)
    pos, e = _bounds(s, pos, endpos)
    for i in range(pos, e + 1):
        r = _result(m, p, s, m.match_at(cs, i, False, e), i)
        if r is not None:
            return r
    return None


def p_finditer(p, s, pos=0, endpos=None):
    pos, e = _bounds(s, pos, endpos)
    cs = chars_of(s)
    m = matcher(p)
    i = pos
    last_empty_ok = True
    must_advance = -1
    while i <= e:
        found = None
        for j in range(i, e + 1):
            full_r = m.match_at(cs, j, False, e)
            if full_r is not None and full_r[0] == j and j == must_advance:
                # an empty match adjacent to the previous match's end is allowed by python>=3.7 unless it is at the
                # same position as a previous empty match
                full_r = None
            if full_r is not None:
                found = _result(m, p, s, full_r, j)
                break
        if found is None:
            return
        yield found
        if found.end() == found.start():
            must_advance = found.end()
            i = found.end()
        else:
            i = found.end()
            must_advance = -1


def p_findall(p, s, pos=0, endpos=None):
    out = []
    for m in p_finditer(p, s, pos, endpos):
        n = m._m.ngroups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m._get(1, ''))
        else:
            out.append(m.groups(''))
    return out


def p_subn(p, repl, s, count=0):
    out = []
    last = 0
    n = 0
    cs = chars_of(s)
    for m in p_finditer(p, s):
        if count and n >= count:
            break
        out.extend(cs[last:m.start()])
        if callable(repl):
            x = repl(m)
        elif '\\' in conc(repl):
            x = _expand(p, conc(repl), m)
        else:
            x = repl
        out.extend(chars_of(x))
        last = m.end()
        n += 1
    out.extend(cs[last:])
    return mkstr(out), n


def _expand(p, template, m):
    out = ''
    i = 0
    while i < len(template):
        c = template[i]
        if c == '\\' and i + 1 < len(template):
            d = template[i + 1]
            if d.isdigit():
                out = out + (m._get(int(d), '') or '')
                i += 2
                continue
            if d == 'g':
                e = template.index('>', i)
                name = template[i + 3:e]
                out = out + (m._get(int(name) if name.isdigit() else name, '') or '')
                i = e + 1
                continue
            out = out + {'n': '\n', 't': '\t', '\\': '\\'}.get(d, '\\' + d)
            i += 2
            continue
        out = out + c
        i += 1
    return out


def p_sub(p, repl, s, count=0):
    return p_subn(p, repl, s, count)[0]


def p_split(p, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in p_finditer(p, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out


PATTERN_METHODS = {'match': p_match, 'fullmatch': p_fullmatch, 'search': p_search, 'finditer': p_finditer,
                   'findall': p_findall, 'subn': p_subn, 'sub': p_sub, 'split': p_split}
