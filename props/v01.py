"""V01: versions are totally ordered, as PEP 440 orders them, and equality and hash agree with the order."""
from pkm.api.versions.version import StandardVersion, NamedVersion, UrlVersion

from sx.session import Case

PROPERTY = 'V01'
ASSUMPTIONS = ['numbers in the order/equality cases are unbounded naturals; hash cases bound them to 0..1',
               'local labels are made of ASCII letters, digits and dots (what the parser produces)']


def mk_std(S, n, rel_len, ints, parts=('epoch', 'pre', 'post', 'dev'), local=None):
    release = tuple([ints(f'{n}.r{i}') for i in range(rel_len)])
    epoch = ints(f'{n}.epoch') if 'epoch' in parts and S.flag(f'{n}.has_epoch') else None
    pre = None
    if 'pre' in parts:
        k = S.pick(f'{n}.pre', [None, 'a', 'b', 'rc'])
        if k:
            pre = (k, ints(f'{n}.pre_n'))
    post = ints(f'{n}.post') if 'post' in parts and S.flag(f'{n}.has_post') else None
    dev = ints(f'{n}.dev') if 'dev' in parts and S.flag(f'{n}.has_dev') else None
    return StandardVersion(release, epoch, pre, post, dev, local)


_PRE = {'a': 0, 'b': 1, 'rc': 2}


def ref_cmp_seq(a, b):
    """-1/0/1 on sequences of equal length"""
    for x, y in zip(a, b):
        if x == y:
            continue
        return -1 if x < y else 1
    return 0


def ref_key(v, rel_len):
    """PEP 440 sort key without the local part, as a flat sequence of integers"""
    rel = list(v.release) + [0] * (rel_len - len(v.release))
    if v.pre_release is None and v.post_release is None and v.dev_release is not None:
        pre = [-1, 0]
    elif v.pre_release is None:
        pre = [3, 0]
    else:
        pre = [_PRE[v.pre_release[0]], v.pre_release[1]]
    post = [0, 0] if v.post_release is None else [1, v.post_release]
    dev = [1, 0] if v.dev_release is None else [0, v.dev_release]
    return [0 if v.epoch is None else v.epoch] + rel + pre + post + dev


def ref_local_key(label):
    """PEP 440: no local < any local; numeric segments above alphanumeric ones, a prefix is smaller"""
    if label is None:
        return None
    return [(1, int(s), '') if s.isdigit() else (0, 0, s) for s in label.split('.')]


def ref_local_cmp(a, b):
    if a is None or b is None:
        return (a is not None) - (b is not None)
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return -1 if x[0] < y[0] else 1
        p, q = (x[1], y[1]) if x[0] else (x[2], y[2])
        if p == q:
            continue
        return -1 if p < q else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def order_std(S, la, lb, parts):
    ints = lambda n: S.free_int(n, 0)
    a, b = mk_std(S, 'a', la, ints, parts), mk_std(S, 'b', lb, ints, parts)
    m = max(la, lb)
    lt, gt, eq = bool(a < b), bool(b < a), bool(a == b)
    le = bool(a <= b)
    S.trace(lt, gt, eq, le)
    c = ref_cmp_seq(ref_key(a, m), ref_key(b, m))
    S.reach('lt' if lt else 'gt' if gt else 'eq')
    S.check(eq == (c == 0), 'equality is not PEP 440 equality', info=lambda: [a, b])
    S.check(lt == (c < 0), 'a<b is not the PEP 440 order', info=lambda: [a, b])
    S.check(gt == (c > 0), 'b<a is not the PEP 440 order', info=lambda: [a, b])
    S.check(le == (c <= 0), 'a<=b is not the PEP 440 order', info=lambda: [a, b])
    S.check(bool(a != b) == (c != 0), 'a!=b disagrees with a==b')


def _local(S, n, alphabet, ns, maxlen):
    segs = [S.str(f'{n}.l{i}', alphabet, 1, maxlen) for i in range(ns)]
    return '.'.join(segs) if ns else None


def order_local(S, na, nb, maxlen, rel):
    # a small alphabet that distinguishes numeric/textual, order within each, and number vs text order of digits
    alphabet = '029ab'
    a_l, b_l = _local(S, 'a', alphabet, na, maxlen), _local(S, 'b', alphabet, nb, maxlen)
    ra, rb = (1,), ((1, 0) if rel else (1,))
    a, b = StandardVersion(ra, local_label=a_l), StandardVersion(rb, local_label=b_l)
    lt, gt, eq = bool(a < b), bool(b < a), bool(a == b)
    S.trace(lt, gt, eq)
    S.check(lt + gt + eq == 1, 'not exactly one of <,==,> holds', info=lambda: [a, b])
    c = ref_local_cmp(ref_local_key(a_l), ref_local_key(b_l))
    S.reach('lt' if lt else 'gt' if gt else 'eq')
    plain = all(len(x) == 1 or x[0] != '0' for l in (a_l, b_l) if l for x in l.split('.'))
    if plain and c != 0:  # spellings of one number (007, 7) are left to the trichotomy and to transitivity
        S.check(lt == (c < 0) and gt == (c > 0), 'local labels are not in PEP 440 order', info=lambda: [a, b])
    if a_l is not None:
        base = a.without_local()
        S.check(base < a and not (a < base) and base != a, 'a version with a local label must follow the bare one')


def order_local3(S, n, maxlen):
    ls = [_local(S, x, '019a', n, maxlen) for x in 'abc']
    a, b, c = [StandardVersion((1,), local_label=x) for x in ls]
    S.assume(bool(a < b) and bool(b < c))
    S.reach('chain')
    S.check(a < c and not (c < a) and a != c, 'a<b<c but not a<c', info=lambda: [a, b, c])


def hash_std(S, la, lb, parts):
    ints = lambda n: S.int(n, 0, 1)
    a, b = mk_std(S, 'a', la, ints, parts), mk_std(S, 'b', lb, ints, parts)
    S.assume(a == b)
    S.reach('equal')
    S.check(hash(a) == hash(b), 'equal versions with different hashes', info=lambda: [repr(a), repr(b)])


_URLS = ['http://h/p', 'http://h/q', 'https://h/p', 'git+http://h/p', 'http+http://h/p', 'git+https://h/p',
         'https+http://h/p', 'http+https://h/p']


def mk_any(S, n, kinds):
    k = S.pick(f'{n}.kind', kinds)
    if k == 'url':
        return 0, UrlVersion.parse(S.pick(f'{n}.url', _URLS))
    if k == 'named':
        return 1, NamedVersion(S.str(f'{n}.name', 'abB1', 1, 2))
    return 2, StandardVersion((S.int(f'{n}.r', 0, 2),))


def mixed(S, ka, kb):
    (ra, a), (rb, b) = mk_any(S, 'a', [ka]), mk_any(S, 'b', [kb])
    lt, gt, eq = bool(a < b), bool(b < a), bool(a == b)
    S.trace(lt, gt, eq)
    S.reach('lt' if lt else 'gt' if gt else 'eq')
    S.check(lt + gt + eq == 1, 'not exactly one of <,==,> holds', info=lambda: [a, b])
    if ra != rb:
        S.check(lt == (ra < rb), 'kinds are not ordered urls < names < numbered versions', info=lambda: [a, b])
    if eq:
        S.check(hash(a) == hash(b), 'equal versions with different hashes', info=lambda: [repr(a), repr(b)])


def mixed3(S, ka, kb, kc):
    vs = [mk_any(S, n, [k])[1] for n, k in zip('abc', (ka, kb, kc))]
    a, b, c = vs
    S.assume(bool(a < b) and bool(b < c))
    S.reach('chain')
    S.check(a < c and not (c < a) and a != c, 'a<b<c but not a<c', info=lambda: vs)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    lens = range(1, 5 if deep else 4)
    for la in lens:
        for lb in lens:
            out.append(Case(f'order_{la}_{lb}', order_std,
                            dict(la=la, lb=lb, parts=('epoch', 'pre', 'post', 'dev')),
                            f'all pairs of versions with {la} and {lb} release numbers and every combination of epoch, '
                            f'pre, post and dev parts; all numbers unbounded', reach=('lt', 'gt', 'eq'), weight=la + lb,
                            timeout=400 if not deep else 1200))
    m = 2 if not deep else 3
    for na in range(0, m + 1):
        for nb in range(0, m + 1):
            ln = 2 if na + nb < 4 else 1
            out.append(Case(f'local_{na}_{nb}', order_local, dict(na=na, nb=nb, maxlen=ln, rel=(na + nb) % 2),
                            f'local labels of {na} and {nb} segments of 1..{ln} characters of "029ab"', weight=5))
    out.append(Case('local3', order_local3, dict(n=1, maxlen=2), 'triples of one-segment local labels, 1..2 characters '
                    'of "019a"', reach=('chain',), weight=6))
    for la, lb in ((1, 1), (1, 2), (2, 1), (2, 3)):
        for parts in (('epoch', 'pre', 'dev'), ('epoch', 'post', 'dev')):
            out.append(Case(f'hash_{la}_{lb}_{"".join(p[0:2] for p in parts)}', hash_std, dict(la=la, lb=lb, parts=parts),
                            f'hash of equal versions with {la}/{lb} release numbers in 0..1, parts {parts}',
                            reach=('equal',), weight=4))
    kinds = ('url', 'named', 'std')
    for ka in kinds:
        for kb in kinds:
            out.append(Case(f'mixed_{ka}_{kb}', mixed, dict(ka=ka, kb=kb),
                            'pairs of url/named/numbered versions; names of 1..2 characters, 8 urls'))
            for kc in (kinds if deep else ('url', 'named') if ka == kb else ('std',)):
                out.append(Case(f'mixed3_{ka}_{kb}_{kc}', mixed3, dict(ka=ka, kb=kb, kc=kc),
                                'triples of url/named/numbered versions'))
    return out
