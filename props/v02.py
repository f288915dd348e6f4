"""V02: reading a version text: every PEP 440 spelling gives its version, other texts are kept as they are, and
printing a version and reading it back gives an equal version that prints the same."""
import re

from pkm.api.versions.version import NamedVersion, StandardVersion, UrlVersion, Version

from props.v01 import mk_std
from sx.session import Case

PROPERTY = 'V02'
ASSUMPTIONS = ['characters outside the stated alphabets are not explored']

# the pattern of PEP 440, appendix B
PEP440 = re.compile(r"""
    v?
    (?:
        (?:(?P<epoch>[0-9]+)!)?
        (?P<release>[0-9]+(?:\.[0-9]+)*)
        (?P<pre>[-_\.]?(?P<pre_l>(a|b|c|rc|alpha|beta|pre|preview))[-_\.]?(?P<pre_n>[0-9]+)?)?
        (?P<post>(?:-(?P<post_n1>[0-9]+))|(?:[-_\.]?(?P<post_l>post|rev|r)[-_\.]?(?P<post_n2>[0-9]+)?))?
        (?P<dev>[-_\.]?(?P<dev_l>dev)[-_\.]?(?P<dev_n>[0-9]+)?)?
    )
    (?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?
""", re.VERBOSE)
_PRE = {'a': 'a', 'b': 'b', 'c': 'rc', 'rc': 'rc', 'alpha': 'a', 'beta': 'b', 'pre': 'rc', 'preview': 'rc'}


def from_match(m):
    pre = post = dev = None
    if m.group('pre') is not None:
        pre = (_PRE[m.group('pre_l')], int(m.group('pre_n') or '0'))
    if m.group('post') is not None:
        post = int(m.group('post_n1') or m.group('post_n2') or '0')
    if m.group('dev') is not None:
        dev = int(m.group('dev_n') or '0')
    local = m.group('local')
    if local is not None:
        local = local.replace('-', '.').replace('_', '.')
    epoch = m.group('epoch')
    return [int(x) for x in m.group('release').split('.')], int(epoch) if epoch is not None else 0, pre, post, dev, local


def fields(v):
    return [list(v.release), 0 if v.epoch is None else v.epoch, v.pre_release, v.post_release, v.dev_release,
            v.local_label]


def same(S, a, b):
    """field-wise equality without forking"""
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return S.all([same(S, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


def check_text(S, text):
    v = Version.parse(text)
    m = PEP440.fullmatch(text.lower())
    S.trace(str(v), type(v).__name__)
    if m is not None:
        S.reach('standard')
        S.check(isinstance(v, StandardVersion), 'a PEP 440 version is not read as a version', info=lambda: [text, v])
        S.check(same(S, fields(v), list(from_match(m))), 'a PEP 440 version is misread',
                info=lambda: [text, fields(v), list(from_match(m))])
    else:
        S.reach('other')
        S.check(isinstance(v, NamedVersion) and v.name == text, 'a text that is not a version is not kept as it is',
                known={'V02-trailing': _trailing(text, v)}, info=lambda: [text, repr(v)])


def _trailing(text, v):
    """the text continues after the version that was read (which is a prefix of it)"""
    if not isinstance(v, StandardVersion):
        return False
    low = text.lower()
    for n in range(len(text) - 1, 0, -1):
        m = PEP440.fullmatch(low[:n])
        if m is not None and fields(v) == list(from_match(m)):
            return True
    # a '+' with no valid local part behind it, brackets and quotes
    return '+' in text


def arbitrary(S, alphabet, lo, hi, prefix):
    check_text(S, prefix + S.str('t', alphabet, lo, hi))


_SEP = '.-_'


def _suffix(S, n, names, digits, need_sep=False):
    """[sep] name [sep] [number] -> text, number"""
    sep1 = S.char(f'{n}.s1', _SEP) if S.flag(f'{n}.has_s1') else ''
    name = S.pick(f'{n}.name', names)
    num = S.str(f'{n}.num', '0159', 0, digits)
    sep2 = S.char(f'{n}.s2', _SEP) if S.flag(f'{n}.has_s2') else ''
    return sep1 + name + sep2 + num, name, int(num) if len(num) else 0


_PRE_NAMES = list(_PRE)


def spelling(S, parts, digits, case):
    text = 'v' if S.flag('v') else ''
    epoch = 0
    if 'epoch' in parts:
        e = S.str('epoch', '0159', 1, 2)
        text, epoch = text + e + '!', int(e)
    rel = [S.str(f'r{i}', '0159', 1, digits) for i in range(2)]
    text = text + rel[0] + '.' + rel[1]
    pre = post = dev = local = None
    if 'pre' in parts:
        t, name, num = _suffix(S, 'pre', _PRE_NAMES, digits)
        text, pre = text + t, (_PRE[name], num)
    if 'post' in parts:
        t, _, num = _suffix(S, 'post', ['post', 'rev', 'r'], digits)
        text, post = text + t, num
    if 'ipost' in parts:
        num = S.str('ipost', '0159', 1, digits)
        text, post = text + '-' + num, int(num)
    if 'dev' in parts:
        t, _, num = _suffix(S, 'dev', ['dev'], digits)
        text, dev = text + t, num
    if 'local' in parts:
        l1, l2 = S.str('l1', 'az09', 1, 2), S.str('l2', 'az09', 1, 1)
        text = text + '+' + l1 + S.char('ls', _SEP) + l2
        local = l1 + '.' + l2
    if case:
        text = ''.join(c.upper() if i % 2 else c for i, c in enumerate(text))
        text = S.pick('pad', ['', ' ', '\t']) + text + S.pick('pad2', ['', ' ', '\n'])
    v = Version.parse(text)
    S.trace(str(v))
    S.reach('read')
    S.check(isinstance(v, StandardVersion), 'a PEP 440 version is not read as a version', info=lambda: [text, v])
    want = [[int(r) for r in rel], epoch, pre, post, dev, local]
    S.check(same(S, fields(v), want), 'a PEP 440 version is misread', info=lambda: [text, fields(v), want])


def roundtrip(S, n, parts, hi, local):
    # S.int has a finite domain; the decimal text is symbolic
    lab = None
    if local:
        segs = [S.str(f'l{i}', 'ab09', 1, 2) for i in range(local)]
        lab = '.'.join(segs)
    v = mk_std(S, 'v', n, lambda k: S.int(k, 0, hi), parts, lab)
    t = str(v)
    w = Version.parse(t)
    S.trace(t)
    S.reach('read')
    S.check(isinstance(w, StandardVersion), 'a printed version is not read back as a version', info=lambda: [t, w])
    S.check(same(S, fields(v), fields(w)), 'a printed version reads back as another one', info=lambda: [t, str(w)])
    S.check(str(w) == t, 'a version prints differently after reading it back', info=lambda: [t, str(w)])
    S.check(v == w, 'a version differs from its own text', info=lambda: [t, str(w)])


def url_roundtrip(S):
    proto = S.pick('proto', ['', 'git', 'http', 'file', 'conda'])
    scheme = S.pick('scheme', ['http', 'https', 'file', 'git'])
    rest = S.str('rest', 'aZ0.-_+@/#=%', 1, 3)
    text = (proto + '+' if proto else '') + scheme + '://h' + rest
    v = Version.parse(text)
    S.reach('read')
    S.trace(str(v))
    S.check(isinstance(v, UrlVersion), 'a url is not read as a url version', info=lambda: [text, v])
    S.check(v.protocol == (proto or scheme), 'the protocol of a url version is wrong', info=lambda: [text, v.protocol])
    S.check(v.url.lower() == (scheme + '://h' + rest).lower(), 'the url of a url version is wrong', info=lambda: [text, v.url])
    w = Version.parse(str(v))
    S.check(v == w and hash(v) == hash(w) and str(v) == str(w), 'a url version does not survive printing and reading',
            info=lambda: [text, str(v), str(w)])


def named_roundtrip(S, n):
    # texts that start with a letter other than v are never versions
    text = S.char('c', 'abXz') + S.str('t', 'aV1.-+ ', 0, n)
    v = Version.parse(text)
    S.reach('read')
    S.check(isinstance(v, NamedVersion) and v.name == text, 'a name is not kept as it is', info=lambda: [text, repr(v)])
    w = Version.parse(str(v))
    S.check(v == w and hash(v) == hash(w), 'a named version does not survive printing and reading')


def cases(tier):
    deep = tier == 'thorough'
    out = []
    n = 5 if not deep else 6
    abc = '01.-_!+abcrpostdevu'
    for p in '01':
        out.append(Case(f'text_{p}', arbitrary, dict(alphabet=abc, lo=0, hi=n - 1, prefix=p),
                        f'all texts of up to {n} characters of "{abc}" that start with {p}', reach=('standard', 'other'),
                        weight=9, timeout=500))
    for p in ('1.0', '1a', '1-', '1.post', '1dev', '1!', '1+a', '1rc', 'v1', '1pr', '1al', '1be', '1_', '1.r'):
        k = 3 if not deep else 4
        out.append(Case(f'text_{p}', arbitrary, dict(alphabet=abc + 'hlw', lo=0, hi=k, prefix=p),
                        f'"{p}" followed by any text of up to {k} characters of "{abc}hlw"', reach=('standard',),
                        weight=5))
    for parts in (('pre',), ('post',), ('dev',), ('ipost',), ('pre', 'dev'), ('post', 'dev'), ('ipost', 'dev'),
                  ('pre', 'post'), ('pre', 'ipost'), ('epoch', 'local'), ('epoch', 'pre'), ('dev', 'local')) + \
            ((('pre', 'post', 'dev'), ('epoch', 'pre', 'post', 'dev', 'local')) if deep else ()):
        d = 2 if len(parts) == 1 or deep and len(parts) == 2 else 1
        if parts == ('pre', 'ipost'):
            continue
        out.append(Case('spell_' + '_'.join(parts), spelling, dict(parts=parts, digits=d, case=False),
                        f'every spelling of {parts} with all separators, numbers of 0..{d} digits', reach=('read',),
                        weight=6, timeout=500, best_effort=deep and len(parts) > 2))
        if len(parts) == 1:
            out.append(Case('spell_case_' + '_'.join(parts), spelling, dict(parts=parts, digits=1, case=True),
                            f'mixed case and surrounding white space, {parts}', reach=('read',), weight=4))
    for n, parts, hi, local in ((1, ('pre', 'post', 'dev', 'epoch'), 12, 0), (2, ('pre', 'dev'), 120, 0),
                                (3, ('post', 'epoch'), 12, 0), (2, (), 10, 1), (1, ('dev',), 10, 2)) + \
            (((3, ('pre', 'post', 'dev', 'epoch'), 120, 1),) if deep else ()):
        out.append(Case(f'round_{n}_{"_".join(p for p in parts)}_{local}', roundtrip,
                        dict(n=n, parts=parts, hi=hi, local=local),
                        f'{n} release numbers and optional {parts} in 0..{hi}, {local} local segments', reach=('read',),
                        weight=5))
    out.append(Case('url', url_roundtrip, {}, 'urls with 5 protocols, 4 schemes and a rest of 1..3 characters',
                    reach=('read',)))
    out.append(Case('named', named_roundtrip, dict(n=3 if not deep else 4), 'names of up to 4 characters',
                    reach=('read',)))
    return out
