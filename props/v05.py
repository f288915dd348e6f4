"""V05: a specifier that is printed and read back is the same set of versions, and prints the same."""
from pkm.api.versions.version import NamedVersion, StandardVersion, UrlVersion
from pkm.api.versions.version_specifiers import AllowAllVersions, RestrictAllVersions, VersionSpecifier, VersionsUnion

from props.v01 import mk_std
from props.v03 import OPS, vtext
from sx.session import Case

PROPERTY = 'V05'
ASSUMPTIONS = ['the specifiers are those that a requirement text can denote; version numbers in it have one digit (two '
               'where stated), the numbers of the tested versions are unbounded']


def known(spec):
    return {'V05-union': isinstance(spec, VersionsUnion) and not str(spec).startswith('!='),
            'V05-none': spec is RestrictAllVersions}


def back(S, spec, members):
    text = str(spec)
    k = known(spec)
    if any(bool(x) for x in k.values()):
        S.check(False, 'a specifier is not readable from its own text', known=k, info=lambda: [text])
    again = VersionSpecifier.parse(text)
    S.trace(text)
    S.reach('read back')
    S.check(str(again) == text, 'a specifier prints differently after it was read back', info=lambda: [text, again])
    for v in members:
        S.check(bool(again.allows_version(v)) == bool(spec.allows_version(v)),
                'a specifier changes its meaning when it is printed and read back', info=lambda: [text, str(v)])
    S.check(again == spec, 'a specifier that is printed and read back differs', info=lambda: [text, again])


def trip(S, ops, rel_len, suffixes, mparts, hi):
    S.const_hash()
    parts = []
    for i, (op, suf) in enumerate(zip(ops, suffixes)):
        t, w = vtext(S, f'w{i}', rel_len, suf, hi)
        parts.append(op[:2] + t + '.*' if op.endswith('.*') else op + t)
    spec = VersionSpecifier.parse(', '.join(parts))
    v = mk_std(S, 'v', rel_len, lambda n: S.free_int(n, 0), mparts)
    back(S, spec, [v])


def exotic(S):
    S.const_hash()
    name = S.str('name', 'aB-1.', 1, 3)
    k = S.pick('k', ['===', '@', '@git+', '*'])
    text = k + ('https://h/' if '@' in k else '') + (name if k != '*' else '')
    spec = VersionSpecifier.parse(text)
    back(S, spec, [NamedVersion(name), UrlVersion.parse('https://h/' + name)])
    if k == '*':
        S.check(spec is AllowAllVersions, 'the star is not all versions')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for op in OPS:
        for rel_len in (1, 2, 3):
            if op == '~=' and rel_len == 1:
                continue
            for suf in ['', 'e'] if op.endswith('.*') else ['', 'a', 'cp', 'pd', 'd', 'e'] + (
                    ['l'] if op in ('==', '!=') else []):
                out.append(Case(f'{op}_{rel_len}_{suf or "final"}', trip,
                                dict(ops=[op], rel_len=rel_len, suffixes=[suf], mparts=('pre',) if deep else (),
                                     hi=2 if deep or rel_len < 3 else 1),
                                f'`{op}` with {rel_len} numbers and suffixes [{suf}]', reach=() if op == '!=.*' else
                                ('read back',), timeout=1200 if deep else 240))
    sets = [('>=', '<'), ('>', '<='), ('>=', '<='), ('>', '<'), ('>=', '!='), ('!=', '!='), ('~=', '!='), ('>=', '<', '!=')]
    for ops in sets:
        sufs = [[''] * len(ops)]
        if ops in (('>=', '<'), ('>', '<='), ('>=', '<=')):
            sufs += [['', 'a'], ['a', ''], ['e', ''], ['e', 'e'], ['', 'p'], ['p', 'd'], ['d', 'd']]
        for suf in sufs:
            for rel_len in (1, 2) if '~=' not in ops else (2,):
                if len(ops) > 2 and rel_len > 1 and not deep:
                    continue
                out.append(Case('list_' + '_'.join(ops) + f'_{rel_len}_' + '-'.join(suf), trip,
                                dict(ops=ops, rel_len=rel_len, suffixes=suf, mparts=(), hi=1),
                                f'the list {ops} with {rel_len} numbers each and suffixes {suf}',
                                reach=('read back',), weight=3, timeout=1200 if deep else 240))
    out.append(Case('exotic', exotic, {}, 'arbitrary equality and url requirements of at most 3 characters',
                    reach=('read back',), weight=3))
    return out
