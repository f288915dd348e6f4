"""D01: a requirement text is read as PEP 508 says, and a requirement that is printed and read back is the same."""
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import PackageDescriptor
from pkm.api.versions.version import StandardVersion, UrlVersion, Version
from pkm.api.versions.version_specifiers import AllowAllVersions, RestrictAllVersions, VersionSpecifier

from sx.session import Case

PROPERTY = 'D01'
ASSUMPTIONS = ['the alphabets stand for their character classes (letter, digit, the three separators, white space)']


def ident(S, n, hi, alphabet='aZ7-_.'):
    t = S.str(n, alphabet, 1, hi)
    for c in '-_.':
        S.assume(t[0] != c)
        S.assume(t[-1] != c)
    return t


def ws(S, n, k=2):
    return S.pick(n, [' ', ''][:k])


def extras_text(S, count, hi):
    es = [ident(S, f'x{i}', hi, 'aZ7-_') for i in range(count)]
    sep = S.pick('xsep', [',', ' , '])
    return '[' + ws(S, 'xl') + sep.join(es) + ws(S, 'xr') + ']', es


def digits(S, n):
    return S.str(n, '0123456789', 1, 1)


OPS = ['==', '>=', '<', '~=', '!=', '<=', '>']
SPECS = ['', '{o}{v}', '({o}{v})', '{o}{v},!={w}', '( {o} {v} , !={w} )', '*', '@ https://h/P.git', '@ git+https://h/P']
MARKERS = [None, "os_name=='a'", "python_version < '2.7' and extra == 'b'"]


def read(S, nlen, ex, spec, marker, ops):
    S.const_hash()
    t = ident(S, 'name', nlen)
    text = ws(S, 'w0') + t
    es = None
    if ex:
        et, es = extras_text(S, ex, 2)
        text += ws(S, 'w1') + et
    if spec:
        op = S.pick('op', ops) if '{o}' in spec else ''
        v = digits(S, 'v') + '.' + digits(S, 'v1') if '{v}' in spec else ''
        w = digits(S, 'w') if '{w}' in spec else ''
        body = spec.replace('{o}', op)
        body = _fill(_fill(body, '{v}', v), '{w}', w)
        # without extras, a name character cannot follow; a url or operator may follow at once
        text = text + ws(S, 'w2') + body
    if marker is not None:
        # PEP 508: a url must be followed by white space before the marker
        text = text + (' ' if '@' in spec else ws(S, 'w3')) + ';' + ws(S, 'w4') + marker
    text = text + (' ' if marker is None and S.flag('tail') else '')
    d = Dependency.parse(text)
    S.reach('read')
    S.trace(d.package_name, d.extras, str(d.version_spec), str(d.env_marker))
    inf = lambda: [text, d.package_name, d.extras, str(d.version_spec), str(d.env_marker)]
    S.check(d.package_name_key == PackageDescriptor.package_name_key(t), 'the package name is misread', info=inf)
    S.check((d.extras is None) == (es is None) and (es is None or _same(S, d.extras, es)), 'the extras are misread',
            info=inf)
    if marker is None:
        S.check(d.env_marker is None, 'a marker appears from nowhere', info=inf)
    else:
        S.check(d.env_marker is not None and str(d.env_marker) == marker, 'the marker is misread', info=inf)
    url = d.required_url()
    if '@' in spec:
        S.check(url is not None and str(url) == spec[2:], 'the url is misread', info=inf)
        S.check(url == UrlVersion.parse(spec[2:]), 'the url is misread', info=inf)
    else:
        S.check(url is None, 'a url appears from nowhere', info=inf)
        if '{o}' in spec:
            want = VersionSpecifier.parse(op + v)
            if w != '':
                want = want.intersect_with(VersionSpecifier.parse('!=' + w))
            S.check(d.version_spec == want, 'the version specifier is misread', info=inf)
        else:
            S.check(d.version_spec is AllowAllVersions, 'a version specifier appears from nowhere', info=inf)
    S.assume(d.version_spec is not RestrictAllVersions)  # what allows nothing does not print (V05-none)
    again_text = str(d)
    again = Dependency.parse(again_text)
    inf = lambda: [text, again_text, str(again)]
    S.check(again.package_name == d.package_name, 'printing and reading back changes the name', info=inf)
    S.check((again.extras or None) == (d.extras or None), 'printing and reading back changes the extras', info=inf)
    S.check(again.version_spec == d.version_spec, 'printing and reading back changes the versions', info=inf)
    S.check((again.env_marker is None) == (d.env_marker is None) and
            (d.env_marker is None or str(again.env_marker) == str(d.env_marker)),
            'printing and reading back changes the marker', info=inf)
    S.check(str(again) == again_text, 'printing again differs', info=inf)


def _same(S, a, b):
    return len(a) == len(b) and S.all([x == y for x, y in zip(a, b)])


def _fill(body, key, v):
    if key not in body:
        return body
    a, b = body.split(key)
    return a + v + b


def misc(S):
    """requirements that are built, not read"""
    S.const_hash()
    v = StandardVersion((S.int('r0', 0, 9), S.int('r1', 0, 12)))
    d = PackageDescriptor('a', v).to_dependency()
    S.check(bool(d.version_spec.allows_version(v)), 'a package does not satisfy its own requirement')
    o = StandardVersion((S.int('o0', 0, 9), S.int('o1', 0, 12)))
    S.check(bool(d.version_spec.allows_version(o)) == (o == v), 'an exact requirement lets another version in')
    g = PackageDescriptor('a', v).to_dependency(generalize=True)
    S.reach('built')
    again = Dependency.parse(str(g))
    for x in (g, again):
        ok = bool(x.version_spec.allows_version(o))
        same_major = o.release[0] == v.release[0]
        S.check(ok == (bool(o >= v) and bool(same_major) or bool(o == StandardVersion((v.release[0] + 1,)))
                       and False or False) or bool(o > v) and ok == bool(o < StandardVersion((v.release[0] + 1,))),
                'a generalized requirement is not from this version up to the next major one',
                info=lambda: [str(v), str(o), str(x)])
    S.check(again.version_spec == g.version_spec, 'a generalized requirement is not readable', info=lambda: [str(g)])


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for ex in ((0, 1, 2) if deep else (0, 1)):
        for i, spec in enumerate(SPECS):
            for j, m in enumerate(MARKERS):
                if not deep and (ex and j == 1 or ex and j and '{w}' in spec):
                    continue
                out.append(Case(f'read_{ex}_{i}_{j}', read,
                                dict(nlen=(3 if deep else 1) if ex else (4 if deep else 3), ex=ex, spec=spec, marker=m,
                                     ops=OPS if deep or not ex else OPS[:2]),
                                f'names of up to {4 if deep else 3} characters, {ex} extras of up to 2 characters, '
                                f'versions `{spec}` with symbolic digits, marker {m}', reach=('read',),
                                timeout=1500 if deep else 240, best_effort=deep))
    out.append(Case('built', misc, {}, 'versions of 2 numbers up to 12', reach=('built',)))
    return out
