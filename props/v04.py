"""V04: the set operations on version specifiers agree with membership."""
from pkm.api.versions.version import NamedVersion, StandardVersion, UrlVersion
from pkm.api.versions.version_specifiers import (AllowAllVersions, RestrictAllVersions, StandardVersionRange,
                                                 VersionMatch, VersionSpecifier)

from sx.session import Case

PROPERTY = 'V04'
ASSUMPTIONS = [
    'members are versions without post part (ranges treat post releases by a rule of their own, which is not a set of '
    'versions closed under these operations); release numbers are unbounded and stand for any totally ordered versions; '
    'versions with local labels take part in the operations between matches and exclusions of single versions']


def ver(S, n, local=None):
    return StandardVersion((S.free_int(n, 0),), local_label=local)


def atom(S, n, kinds):
    k = S.pick(f'{n}.kind', kinds)
    if k == 'min':
        return VersionSpecifier.create_range(ver(S, f'{n}.lo'), None, bool(S.flag(f'{n}.il')), False)
    if k == 'max':
        return VersionSpecifier.create_range(None, ver(S, f'{n}.hi'), False, bool(S.flag(f'{n}.ih')))
    if k == 'range':
        lo, hi = ver(S, f'{n}.lo'), ver(S, f'{n}.hi')
        S.assume(lo < hi)
        return VersionSpecifier.create_range(lo, hi, bool(S.flag(f'{n}.il')), bool(S.flag(f'{n}.ih')))
    if k == 'eq':
        return VersionMatch(ver(S, f'{n}.v'))
    if k == 'ne':
        return VersionMatch(ver(S, f'{n}.v'), False)
    if k == 'eql':
        return VersionMatch(ver(S, f'{n}.v', S.pick(f'{n}.l', ['x', 'y'])))
    if k == 'nel':
        return VersionMatch(ver(S, f'{n}.v', S.pick(f'{n}.l', ['x', 'y'])), False)
    if k == 'named':
        return VersionMatch(NamedVersion(S.pick(f'{n}.name', ['x', 'y'])))
    if k == 'unnamed':
        return VersionMatch(NamedVersion(S.pick(f'{n}.name', ['x', 'y'])), False)
    if k == 'all':
        return AllowAllVersions
    if k == 'none':
        return RestrictAllVersions
    raise ValueError(k)


def member(S, n='v', named=False):
    if named == 'local':
        return ver(S, n, S.pick(n + '.l', [None, 'x', 'y']))
    if named:
        return NamedVersion(S.pick(n + '.name', ['x', 'y', 'z']))
    return ver(S, n)


def has(spec, v):
    return bool(spec.allows_version(v))


def binary(S, ka, kb, named):
    S.const_hash()
    a, b = atom(S, 'a', ka), atom(S, 'b', kb)
    v = member(S, 'v', named)
    ina, inb = has(a, v), has(b, v)
    u, i, d, ia = a.union_with(b), a.intersect_with(b), a.difference_from(b), a.inverse()
    S.reach('built')
    laws(S, a, b, v, ina, inb, u, i, d, ia)


def laws(S, a, b, v, ina, inb, u, i, d, ia):
    S.trace(ina, inb)
    inf = lambda: [str(a), str(b), str(v)]
    S.check(has(u, v) == (ina or inb), 'union_with is not the union', info=lambda: inf() + [str(u)])
    S.check(has(i, v) == (ina and inb), 'intersect_with is not the intersection', info=lambda: inf() + [str(i)])
    S.check(has(ia, v) == (not ina), 'inverse is not the complement', info=lambda: inf() + [str(ia)])
    S.check(has(d, v) == (ina and not inb), 'difference_from is not the difference', info=lambda: inf() + [str(d)])
    if a.allows_all(b):
        S.reach('allows_all')
        S.check(ina or not inb, 'allows_all holds for specifiers that do not include one another', info=inf)
    if not a.allows_any(b):
        S.reach('disjoint')
        S.check(not (ina and inb), 'allows_any denies specifiers that share a version', info=inf)


def local_range(S):
    """matches stand for the local versions of their version, ordering clauses do not"""
    S.const_hash()
    a, b = atom(S, 'a', ['min', 'max']), atom(S, 'b', ['eq', 'ne'])
    v = member(S, 'v', 'local')
    i = a.intersect_with(b)
    S.reach('built')
    S.check(has(i, v) == (has(a, v) and has(b, v)), 'intersect_with is not the intersection',
            known={'V04-local': v.local_label is not None and bool(b.version == v.without_local())},
            info=lambda: [str(a), str(b), str(v), str(i)])


def witnesses(ends, local):
    wit = [StandardVersion((0,))]
    for e in ends:
        e = e.without_local()
        wit += [e, StandardVersion((*e.release, 1)), StandardVersion(e.release, dev_release=0)]
        if local:
            wit += [StandardVersion(e.release, local_label=l) for l in 'xyz']
    return wit


def exact(S, ka, kb, local=False):
    """on two specifiers over a dense order, the ends and their close neighbours witness any non-empty set"""
    S.const_hash()
    ends = []

    def make(n, kinds):
        x = atom(S, n, kinds)
        for e in ([x.min, x.max] if isinstance(x, StandardVersionRange) else
                  [x.version] if isinstance(x, VersionMatch) else []):
            if e is not None:
                ends.append(e)
        return x

    a, b = make('a', ka), make('b', kb)
    wit = witnesses(ends, local)
    both = any([has(a, w) and has(b, w) for w in wit])
    outside = any([has(b, w) and not has(a, w) for w in wit])
    S.reach('built')
    S.trace(both, outside)
    S.check(bool(a.allows_any(b)) == both, 'allows_any is not whether there is a shared version',
            info=lambda: [str(a), str(b)])
    if b is not RestrictAllVersions:  # inclusion of the empty specifier is a convention, not relied on
        S.check(bool(a.allows_all(b)) == (not outside), 'allows_all is not whether everything is included',
                info=lambda: [str(a), str(b)])


def exact3(S, ka, kb, kc, op, order, local=False):
    """the same for (a op b) against c"""
    S.const_hash()
    ends = []

    def make(n, k):
        x = atom(S, n, [k])
        for e in ([x.min, x.max] if isinstance(x, StandardVersionRange) else
                  [x.version] if isinstance(x, VersionMatch) else []):
            if e is not None:
                ends.append(e)
        return x

    a, b, c = make('a', ka), make('b', kb), make('c', kc)
    wit = witnesses(ends, local)
    join = (lambda p, q: p or q) if op == 'or' else (lambda p, q: p and q)
    inx = [join(has(a, w), has(b, w)) for w in wit]
    inc = [has(c, w) for w in wit]
    x = a.union_with(b) if op == 'or' else a.intersect_with(b)
    if order:
        x, c, inx, inc = c, x, inc, inx
    S.reach('built')
    inf = lambda: [str(x), str(c)]
    S.check(bool(x.allows_any(c)) == any([p and q for p, q in zip(inx, inc)]),
            'allows_any is not whether there is a shared version', info=inf)
    if any(inc):
        S.check(bool(x.allows_all(c)) == (not any([q and not p for p, q in zip(inx, inc)])),
                'allows_all is not whether everything is included', info=inf)


def compound(S, ka, kb, kc, op1, named=False, order=0):
    """(a op b) against c, so that unions and blacklists take part"""
    S.const_hash()
    a, b, c = atom(S, 'a', ka), atom(S, 'b', kb), atom(S, 'c', kc)
    v = member(S, 'v', named)
    ina, inb, inc = has(a, v), has(b, v), has(c, v)
    if op1 == 'or':
        x, inx = a.union_with(b), ina or inb
    else:
        x, inx = a.intersect_with(b), ina and inb
    S.check(has(x, v) == inx, 'the first operation is wrong', info=lambda: [str(a), str(b), str(v), str(x)])
    if order:
        x, c, inx, inc = c, x, inc, inx
    u, i, d, ix = x.union_with(c), x.intersect_with(c), x.difference_from(c), x.inverse()
    S.reach('built')
    laws(S, x, c, v, inx, inc, u, i, d, ix)


def quad(S, ka, kb, op1, kc, kd, op2):
    """(a op1 b) against (c op2 d)"""
    S.const_hash()
    ab = [atom(S, n, [k]) for n, k in zip('abcd', (ka, kb, kc, kd))]
    v = member(S, 'v')
    ins = [has(x, v) for x in ab]
    a, b, c, d = ab
    x, inx = (a.union_with(b), ins[0] or ins[1]) if op1 == 'or' else (a.intersect_with(b), ins[0] and ins[1])
    y, iny = (c.union_with(d), ins[2] or ins[3]) if op2 == 'or' else (c.intersect_with(d), ins[2] and ins[3])
    S.check(has(x, v) == inx and has(y, v) == iny, 'the first operation is wrong',
            info=lambda: [str(a), str(b), str(c), str(d), str(v), str(x), str(y)])
    S.reach('built')
    laws(S, x, y, v, inx, iny, x.union_with(y), x.intersect_with(y), x.difference_from(y), x.inverse())


def cases(tier):
    deep = tier == 'thorough'
    out = []
    std = ['min', 'max', 'range', 'eq', 'ne']
    names = ['named', 'unnamed']
    for ka in std + ['all', 'none'] + names:
        for kb in std + ['all', 'none'] + names:
            for named in (False, True):
                if named and (not (set(names) & {ka, kb}) or set(std) & {ka, kb}):
                    continue
                out.append(Case(f'pair_{ka}_{kb}_{"n" if named else "s"}', binary, dict(ka=[ka], kb=[kb], named=named),
                                f'a {ka} and a {kb} specifier with unbounded numbers against any version',
                                reach=('built',)))
    for ka in std + ['all', 'none']:
        for kb in std + ['all', 'none']:
            out.append(Case(f'exact_{ka}_{kb}', exact, dict(ka=[ka], kb=[kb]),
                            'inclusion and overlap of two specifiers with unbounded numbers, both directions',
                            reach=('built',)))
    few = ['min', 'max', 'eq', 'ne'] + ['range'] * deep
    for i, ka in enumerate(few):
        for kb in few[i:]:
            for op in ('or', 'and'):
                for kc in few:
                    for order in (0, 1):
                        out.append(Case(f'exact_{ka}_{op}_{kb}__{kc}_{order}', exact3,
                                        dict(ka=ka, kb=kb, kc=kc, op=op, order=order),
                                        f'inclusion and overlap of ({ka} {op} {kb}) and {kc}, unbounded numbers',
                                        reach=('built',), weight=4, timeout=1500 if deep else 240, best_effort=deep))
    for i, ka in enumerate(std):
        for kb in std[i:]:
            if not deep and 'range' in (ka, kb):
                continue
            for op in ('or', 'and'):
                for kc in std:
                    for order in (0, 1):
                        out.append(Case(f'tri_{ka}_{op}_{kb}__{kc}_{order}', compound,
                                        dict(ka=[ka], kb=[kb], kc=[kc], op1=op, order=order),
                                        f'({ka} {op} {kb}) combined with {kc}, unbounded numbers', reach=('built',),
                                        weight=6 + 10 * [ka, kb, kc].count('range'), timeout=1500 if deep else 240,
                                        best_effort=deep))
    quads = [('min', 'ne', 'and'), ('max', 'ne', 'and'), ('ne', 'ne', 'and'), ('eq', 'eq', 'or')]
    quads += [('min', 'max', 'or'), ('min', 'eq', 'or'), ('max', 'eq', 'or'), ('range', 'ne', 'and')] * deep
    for x in quads:
        for y in quads:
            out.append(Case('quad_{}_{}_{}__{}_{}_{}'.format(*x, *y), quad,
                            dict(ka=x[0], kb=x[1], op1=x[2], kc=y[0], kd=y[1], op2=y[2]),
                            f'({x[0]} {x[2]} {x[1]}) combined with ({y[0]} {y[2]} {y[1]}), unbounded numbers',
                            reach=('built',), weight=20, timeout=1500 if deep else 400, best_effort=deep))
    loc = ['eq', 'ne', 'eql', 'nel']
    for ka in loc:
        for kb in loc:
            out.append(Case(f'local_{ka}_{kb}', binary, dict(ka=[ka], kb=[kb], named='local'),
                            f'a {ka} and a {kb} specifier with unbounded numbers against versions with and without '
                            'local label', reach=('built',)))
            out.append(Case(f'local_exact_{ka}_{kb}', exact, dict(ka=[ka], kb=[kb], local=True),
                            'inclusion and overlap of two specifiers with unbounded numbers, with local labels',
                            reach=('built',)))
    for i, ka in enumerate(loc):
        for kb in loc[i:]:
            for op in ('or', 'and'):
                for kc in loc:
                    if not {ka, kb, kc} & {'eql', 'nel'}:
                        continue
                    for order in (0, 1):
                        out.append(Case(f'local_{ka}_{op}_{kb}__{kc}_{order}', compound,
                                        dict(ka=[ka], kb=[kb], kc=[kc], op1=op, order=order, named='local'),
                                        f'({ka} {op} {kb}) combined with {kc}, unbounded numbers, with local labels',
                                        reach=('built',), weight=6, timeout=1500 if deep else 240, best_effort=deep))
                        if deep:
                            out.append(Case(f'local_exact_{ka}_{op}_{kb}__{kc}_{order}', exact3,
                                            dict(ka=ka, kb=kb, kc=kc, op=op, order=order, local=True),
                                            f'inclusion and overlap of ({ka} {op} {kb}) and {kc}, unbounded numbers, '
                                            'with local labels', reach=('built',), weight=6, timeout=1500,
                                            best_effort=True))
    out.append(Case('local_range_eq', local_range, {}, 'an ordering clause and a match with unbounded numbers against '
                    'versions with and without local label', reach=('built',)))
    return out
