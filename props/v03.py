"""V03: a version specifier text is read as the set of versions it denotes."""
from dataclasses import replace

from pkm.api.versions.version import NamedVersion, StandardVersion, UrlVersion
from pkm.api.versions.version_specifiers import AllowAllVersions, VersionSpecifier

from props.v01 import mk_std, ref_cmp_seq, ref_key, ref_local_cmp, ref_local_key
from sx.session import Case

PROPERTY = 'V03'
ASSUMPTIONS = ['version numbers in the texts have 1 or 2 digits, the numbers of the tested versions are unbounded',
               'ordering operators let a post release in only when it is the inclusive end, or when the lower end is a '
               'post release itself (the rule of this codebase, pinned by its tests)']

REL = 4


def numeral(S, n, hi=1):
    """(text, value) of a number without leading zeros beyond what is written"""
    t = S.str(n, '0123456789', 1, hi)
    return t, int(t)


def vtext(S, n, rel_len, suffix, hi=2):
    """a version text and the version it denotes, built independently"""
    epoch = pre = post = dev = local = None
    t = ''
    if 'e' in suffix:
        s, epoch = numeral(S, n + '.e')
        t += s + '!'
    rel = []
    for i in range(rel_len):
        s, x = numeral(S, f'{n}.r{i}', hi if i == 0 else 1)
        t += ('.' if i else '') + s
        rel.append(x)
    if 'a' in suffix or 'b' in suffix or 'c' in suffix:
        k = {'a': 'a', 'b': 'b', 'c': 'rc'}[[c for c in suffix if c in 'abc'][0]]
        s, x = numeral(S, n + '.pre')
        t += k + s
        pre = (k, x)
    if 'p' in suffix:
        s, post = numeral(S, n + '.post')
        t += '.post' + s
    if 'd' in suffix:
        s, dev = numeral(S, n + '.dev')
        t += '.dev' + s
    if 'l' in suffix:
        local = 'cu1'
        t += '+' + local
    return t, StandardVersion(tuple(rel), epoch, pre, post, dev, local)


def cmp(S, a, b):
    c = ref_cmp_seq(ref_key(a, REL), ref_key(b, REL))
    return c if c else ref_local_cmp(ref_local_key(a.local_label), ref_local_key(b.local_label))


def in_range(S, v, lo, hi, ilo, ihi):
    if lo is not None and ilo and cmp(S, v, lo) == 0:
        return True
    if hi is not None and ihi and cmp(S, v, hi) == 0:
        return True
    if v.post_release is not None and (lo is None or lo.post_release is None):
        return False
    return (lo is None or cmp(S, lo, v) < 0) and (hi is None or cmp(S, v, hi) < 0)


def plain(v):
    return StandardVersion(v.release, v.epoch, v.pre_release, v.post_release, v.dev_release)


def denotes(S, op, w, v):
    """reference membership of the standard version v in `op w`"""
    if op in ('==', '!='):
        eq = cmp(S, v if w.local_label is not None else plain(v), w) == 0
        return eq if op == '==' else not eq
    if op == '>=':
        return in_range(S, v, w, None, True, False)
    if op == '>':
        return in_range(S, v, w, None, False, False)
    if op == '<=':
        return in_range(S, v, None, w, False, True)
    if op == '<':
        return in_range(S, v, None, w, False, False)
    if op == '~=':
        rel = tuple(w.release[:-2]) + (w.release[-2] + 1, 0)
        return in_range(S, v, w, StandardVersion(rel, w.epoch), True, False)
    if op == '==.*':
        rel = tuple(w.release[:-1]) + (w.release[-1] + 1,)
        return in_range(S, v, w, StandardVersion(rel, w.epoch), True, False)
    raise ValueError(op)


def spec_text(S, op, t):
    style = S.pick('style', ['{o}{v}', '{o} {v}', ' {o}  {v} ', '({o}{v})', "{o}'{v}'", '{o} "{v}" '])
    if op.endswith('.*'):
        return style.replace('{o}', op[:2]).replace('{v}', t + '.*') if "'" not in style and '"' not in style \
            else f'{op[:2]}{t}.*'
    return style.replace('{o}', op).replace('{v}', t)


def single(S, op, rel_len, suffix, mrel, mparts, mlocal, hi=2):
    t, w = vtext(S, 'w', rel_len, suffix, hi)
    text = spec_text(S, op, t)
    spec = VersionSpecifier.parse(text)
    v = mk_std(S, 'v', mrel, lambda n: S.free_int(n, 0), mparts, mlocal)
    S.reach('read')
    got = bool(spec.allows_version(v))
    if op == '!=.*':
        want = not denotes(S, '==.*', w, v)
        if v.post_release is not None:
            return  # the complement of a range leaves post releases out on both sides
    else:
        want = denotes(S, op, w, v)
    S.trace(text, got)
    if want:
        S.reach('in')
    else:
        S.reach('out')
    S.check(got == want, 'a specifier text does not denote its versions', info=lambda: [text, str(v), got])


def conj(S, ops, mrel, nrel, hi, local=False):
    S.const_hash()
    parts, ws = [], []
    for i, op in enumerate(ops):
        t, w = vtext(S, f'w{i}', 1 if op.endswith('.*') else nrel, '', hi)
        if op.endswith('.*'):
            parts.append(op[:2] + t + '.*')
        else:
            if local and op in ('==', '!=') and S.flag(f'l{i}'):
                t += '+cu1'
                w = replace(w, local_label='cu1')
            parts.append(op + t)
        ws.append(w)
    text = S.pick('sep', [',', ' , ']).join(parts)
    if S.flag('paren'):
        text = '(' + text + ')'
    spec = VersionSpecifier.parse(text)
    v = StandardVersion(tuple([S.free_int(f'v.r{i}', 0) for i in range(mrel)]),
                        local_label=S.pick('local', [None, 'cu1', 'cu2']) if local else None)
    want = True
    for op, w in zip(ops, ws):
        one = not denotes(S, '==.*', w, v) if op == '!=.*' else denotes(S, op, w, v)
        want = want and one
    got = bool(spec.allows_version(v))
    S.trace(text, got)
    S.reach('in' if want else 'out')
    # == stands for the local versions too, <= does not
    S.check(got == want, 'a list of specifiers does not denote the versions that all of them allow',
            known={'V03-local': local and v.local_label is not None and '==' in ops and bool({*ops} & {'<=', '<', '>', '>='})},
            info=lambda: [text, str(spec), str(v), got])


def exotic(S):
    name = S.str('name', 'xX-1.', 1, 3)
    k = S.pick('k', ['===', '@', '*', ''])
    S.const_hash()
    if k == '===':
        spec = VersionSpecifier.parse(S.pick('s', ['===', '=== ']) + name)
        other = S.str('other', 'xX-1.', 1, 3)
        got = bool(spec.allows_version(NamedVersion(other)))
        S.trace(got)
        S.reach('named')
        S.check(got == (name == other), 'an arbitrary equality does not match its text',
                info=lambda: [name, other])
        S.check(not spec.allows_version(StandardVersion((1,))), 'an arbitrary equality matches another version')
    elif k == '@':
        u = 'https://h/' + name
        spec = VersionSpecifier.parse('@ ' + u)
        other = S.str('other', 'xX-1.', 1, 3)
        got = bool(spec.allows_version(UrlVersion.parse('https://h/' + other)))
        S.trace(got)
        S.reach('url')
        S.check(got == (name == other), 'a url requirement does not match its url', info=lambda: [name, other])
        S.check(not spec.allows_version(StandardVersion((1,))), 'a url requirement matches another version')
    else:
        spec = VersionSpecifier.parse(k)
        S.check(spec is AllowAllVersions, 'an empty specifier or a star is not any version')
        S.reach('any')


OPS = ['==', '!=', '>=', '>', '<=', '<', '~=', '==.*', '!=.*']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for op in OPS:
        for rel_len in ((1, 2, 3) if deep else (1, 2)):
            if op == '~=' and rel_len == 1:
                continue
            sufs = ['', 'e'] if op.endswith('.*') else ['', 'a', 'p', 'd', 'e'] + (
                ['apd', 'ec', 'b', 'ad', 'pd'] if deep else [])
            if op in ('==', '!='):
                sufs = sufs + ['l']
            for suf in sufs:
                for mparts, mlocal in (((), None), (('pre',), None), (('post', 'dev'), None), ((), 'cu1'), ((), 'cu2'),
                                       *(((('epoch', 'pre', 'post', 'dev'), None),) if deep else
                                         ((('epoch',), None),))):
                    if mlocal == 'cu2' and op not in ('==', '!='):
                        continue
                    out.append(Case(
                        f'{op}_{rel_len}_{suf or "final"}_{"-".join(mparts) or "final"}{mlocal or ""}', single,
                        dict(op=op, rel_len=rel_len, suffix=suf, mrel=rel_len if not deep else 3, mparts=mparts,
                             mlocal=mlocal),
                        f'`{op}` with a version of {rel_len} number(s) (first: 1-2 digits) and suffixes [{suf}], '
                        f'against versions of {rel_len if not deep else 3} unbounded numbers with optional '
                        f'{"/".join(mparts) or "nothing more"}', reach=('read',),
                        timeout=900 if deep else 240))
    for op in OPS:
        for rel_len in (2, 3, 4) + (5, 6) * deep:
            for mrel in (1, 2, 3, 4) + (5, 6) * deep:
                for suf in ('', 'a') if not op.endswith('.*') else ('',):
                    if suf and mrel != rel_len:
                        continue
                    out.append(Case(
                        f'long_{op}_{rel_len}_{mrel}_{suf}', single,
                        dict(op=op, rel_len=rel_len, suffix=suf, mrel=mrel, mparts=(), mlocal=None, hi=1),
                        f'`{op}` with a version of {rel_len} numbers of one digit and suffixes [{suf}] against versions '
                        f'of {mrel} unbounded numbers', reach=('read',), timeout=900 if deep else 240))
    sets = [('>=', '<'), ('>', '<='), ('>=', '!='), ('!=', '!='), ('==', '!='), ('~=', '!='), ('>=', '<', '!='),
            ('==.*', '!='), ('!=.*', '>='), ('==', '=='), ('>', '>=')]
    if deep:
        sets += [('>=', '<', '!=', '!='), ('~=', '!=.*'), ('!=.*', '!=.*'), ('>=', '<', '!=.*')]
    for ops in sets:
        out.append(Case('list_' + '_'.join(ops), conj, dict(ops=ops, mrel=2, nrel=2 if '~=' in ops or deep else 1, hi=2 if deep else 1),
                        f'the list {ops} over versions of 2 numbers', reach=('out',), weight=4,
                        timeout=1500 if deep else 240, best_effort=deep))
    for ops in (('!=', '<'), ('!=', '!='), ('==', '!='), ('!=', '>='), ('==', '<='), ('>', '<='), ('==', '==')) + deep * (
            ('!=', '<', '!='), ('==.*', '!='), ('~=', '!=')):
        out.append(Case('local_' + '_'.join(ops), conj,
                        dict(ops=ops, mrel=2 if '~=' in ops else 1, nrel=2 if '~=' in ops else 1, hi=1, local=True),
                        f'the list {ops} with and without local labels over versions with and without them',
                        reach=('out',), weight=3, timeout=1500 if deep else 240, best_effort=deep))
    out.append(Case('exotic', exotic, {}, 'arbitrary equality and url requirements of at most 3 characters',
                    reach=('named', 'url', 'any'), weight=3))
    return out
