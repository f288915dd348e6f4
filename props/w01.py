"""W01: a wheel is compatible with an environment exactly when its tags say so, and better tags score higher."""
from pkm.api.environments import environment_introspection as ei
from pkm.api.environments.environment_introspection import EnvironmentIntrospection

from sx.session import Case

PROPERTY = 'W01'
ASSUMPTIONS = ['the facts about the interpreter (what its introspection reports) are given; reading its ELF header is replaced '
               'by given facts; interpreters are CPython 3 (any minor), PyPy or unknown ones']

EXE = '/nonexistent/python'


def env_data(impl='cpython', minor=10, system='Linux', platform='linux-x86_64', maxsize=2 ** 63 - 1, glibc='glibc 2.28',
             vars_=None, suffixes=(), mac_ver=('', ['', '', ''], ''), total=False):
    return {
        'sysconfig': {'platform': platform, 'vars': dict(vars_ or {}), 'paths': {}},
        'sys': {'implementation': {'name': impl}, 'version_info': [3, minor, 1, 'final', 0], 'has_totalrefcount': total,
                'maxunicode': 0x10FFFF, 'maxsize': maxsize, 'executable': EXE},
        'importlib': {'machinery': {'EXTENSION_SUFFIXES': list(suffixes)}},
        'platform': {'system': system, 'mac_ver': mac_ver},
        'os': {'conf': {'CS_GNU_LIBC_VERSION': glibc} if glibc else {}},
    }


class Elf:
    def __init__(self, ok=True, musl=None):
        self.ok, self.musl = ok, musl

    def have_compatible_abi(self, arch):
        return self.ok

    def compute_musl_version(self):
        return self.musl


def intro(S, elf=Elf(), **kw):
    S.patch(ei._ElfData, 'read', staticmethod(lambda p: elf))
    return EnvironmentIntrospection(env_data(**kw))


def score(S, i, tag):
    return i.compatibility_score(tag)


# ------------------------------------------------------------------------------------------ platforms
def linux(S, arch, bits, prefix, elf_ok, deep):
    """one platform tag against a Linux system"""
    musl = S.flag('musl')
    plat = {('x86_64', 64): 'linux-x86_64', ('aarch64', 64): 'linux-aarch64', ('i686', 32): 'linux-x86_64',
            ('armv7l', 32): 'linux-aarch64', ('s390x', 64): 'linux-s390x'}[arch, bits]
    gm = (S.int('glibc', 0, 45) if deep else S.pick('glibc', [5, 12, 16, 17, 28])) if not musl else None
    mm = S.int('muslv', 0, 5) if musl else None
    i = intro(S, Elf(elf_ok, (1, mm) if musl else None), platform=plat, maxsize=2 ** (bits - 1) - 1,
              glibc=None if musl else f'glibc 2.{S.conc(gm)}')
    if prefix == 'manylinux_':
        mj, mn = S.str('maj', '0123', 1, 1), S.str('min', '0123456789', 1, 2)
        p = 'manylinux_' + mj + '_' + mn
        ok = not musl and elf_ok and bool(S.any([int(mj) < 2, S.all([int(mj) == 2, int(mn) <= gm])]))
    elif prefix == 'musllinux_':
        mj, mn = S.str('maj', '012', 1, 1), S.str('min', '0123456789', 1, 1)
        p = 'musllinux_' + mj + '_' + mn
        ok = musl and elf_ok and bool(S.all([int(mj) == 1, int(mn) <= mm]))
    elif prefix == 'linux':
        p, ok = 'linux', True
    else:
        p = prefix
        need = {'manylinux1': 5, 'manylinux2010': 12, 'manylinux2014': 17}.get(prefix)
        ok = need is not None and not musl and elf_ok and bool(gm >= need)
    tarch = S.pick('tarch', ['x86_64', 'aarch64', 'i686', 'armv7l', 's390x', 'xx86_64', '86_64'])
    ok = ok and tarch == arch
    s = score(S, i, 'py3-none-' + p + '_' + tarch)
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'a platform tag is judged wrongly',
            info=lambda: [arch, bits, musl, gm, mm, elf_ok, p, tarch])


def other_platforms(S):
    i = intro(S, glibc=S.pick('glibc', ['glibc 2.28', None, '']) if S.flag('linux') else None) \
        if S.flag('l') else intro(S, system='Windows', platform=S.pick('win', ['win-amd64', 'win32']), glibc=None)
    mine = ei._normalize_string(i['sysconfig']['platform'])
    p = S.pick('p', ['any', 'win_amd64', 'win32', 'linux_x86_64', 'macosx_10_9_x86_64', 'x', '', 'macosx', 'linux'])
    s = score(S, i, 'py3-none-' + p)
    ok = p == 'any' or p == mine
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'a platform tag is judged wrongly', info=lambda: [mine, p])


_MAC = {'x86_64': ['x86_64', 'intel', 'fat64', 'fat32', 'universal2', 'universal'], 'arm64': ['arm64', 'universal2'],
        'i386': ['i386', 'intel', 'fat32', 'fat', 'universal']}


def darwin(S):
    arch = S.pick('arch', ['x86_64', 'arm64', 'i386'])
    maj = S.pick('my_major', [10, 11, 13])
    mnr = S.int('my_minor', 4, 15) if maj == 10 else 2
    S.assume(not (maj == 10 and arch == 'arm64') and not (maj > 10 and arch == 'i386'))
    i = intro(S, system='Darwin', platform='macosx-10.4-zzz', glibc=None,
              maxsize=2 ** (31 if arch == 'i386' else 63) - 1, mac_ver=(f'{maj}.{S.conc(mnr)}.1', ['', '', ''], arch))
    tj, tn = S.pick('tj', ['10', '11', '12', '14']), S.str('tn', '0123456789', 1, 2)
    f = S.pick('f', ['x86_64', 'arm64', 'intel', 'fat64', 'fat32', 'fat', 'universal2', 'universal', 'i386', 'ppc'])
    s = score(S, i, 'py3-none-macosx_' + tj + '_' + tn + '_' + f)
    ok = f in _MAC[arch] and bool(S.any([int(tj) < maj, S.all([int(tj) == maj, int(tn) <= mnr])]))
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'a macos tag is judged wrongly', info=lambda: [arch, maj, mnr, tj, tn, f])


# ------------------------------------------------------------------------------------- interpreter, abi
def interpreter(S, impl):
    m = S.int('minor', 0, 21)
    i = intro(S, impl=impl, minor=S.conc(m), vars_={'SOABI': 'pypy310-pp73-x86_64-linux-gnu'})
    short = {'cpython': 'cp', 'pypy': 'pp', 'foo': 'foo'}[impl]
    name = S.pick('name', ['py', 'cp', 'pp', 'foo', 'pypy', ''])
    kind = S.pick('kind', ['major', 'nodot', 'underscore'])
    mj = S.str('maj', '0123456789', 1, 1)
    mn = S.str('min', '0123456789', 1, 2) if kind != 'major' else ''
    s = score(S, i, name + mj + ('_' if kind == 'underscore' else '') + mn + '-none-any')
    ok = bool(int(mj) == 3) and name in ('py', short) and (kind == 'major' or bool(int(mn) <= m))
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'an interpreter tag is judged wrongly', info=lambda: [impl, m, name, kind, mj, mn])


def cpython_abi(S, minor):
    m = minor
    debug = S.pick('debug', [None, 0, 1])
    ext = total = False
    if debug is None:
        ext, total = S.flag('ext'), S.flag('total')
    malloc = S.pick('malloc', [None, 0, 1]) if m < 8 else None
    ucs = S.pick('ucs', [None, 2, 4]) if m < 3 else None
    vs = {k: v for k, v in (('Py_DEBUG', debug), ('WITH_PYMALLOC', malloc), ('Py_UNICODE_SIZE', ucs)) if v is not None}
    mc = m
    i = intro(S, minor=mc, vars_=vs, suffixes=['_d.pyd'] if ext else ['.pyd'], total=bool(total))
    d = bool(debug) or (debug is None and (bool(ext) or bool(total)))
    flags = ('d' if d else '') + ('m' if mc < 8 and malloc != 0 else '') + ('u' if mc < 3 and ucs != 2 else '')
    own = {f'cp3{mc}{flags}', 'none'}
    if d and mc >= 8:
        own.add(f'cp3{mc}')
    if mc >= 2:
        own.add('abi3')
    k = S.pick('k', ['none', 'abi3', 'cp', 'abi4', 'pypy310_pp73'])
    abi = k if k != 'cp' else 'cp3' + S.str('n', '0123456789', 1, 2) + S.pick('flags', ['', 'd', 'm', 'dm', 'u', 'mu', 'dmu'])
    s = score(S, i, 'cp3-' + abi + '-any')
    ok = bool(S.any([abi == x for x in own]))
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'an abi tag is judged wrongly', info=lambda: [mc, vs, d, abi])


def other_abi(S):
    impl, soabi, own = S.pick('impl', [('pypy', 'pypy310-pp73-x86_64-linux-gnu', 'pypy310_pp73'),
                                       ('pypy', 'pypy39-pp73-darwin', 'pypy39_pp73'), ('foo', 'foo-1.2', 'foo_1_2'),
                                       ('foo', None, None)])
    i = intro(S, impl=impl, vars_={'SOABI': soabi} if soabi else {})
    abi = S.pick('abi', ['none', 'abi3', 'pypy310_pp73', 'pypy39_pp73', 'foo_1_2', 'cp310'])
    s = score(S, i, 'py3-' + abi + '-any')
    ok = abi in ('none', own)
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'an abi tag is judged wrongly', info=lambda: [impl, soabi, abi])


# ------------------------------------------------------------------------------------------- tag sets
IPS = ['py2', 'py3', 'cp310', 'cp39', 'cp311', 'cp3x']
ABIS = ['none', 'cp310', 'abi3', 'cp39']
PLTS = ['any', 'linux_x86_64', 'manylinux2014_x86_64', 'manylinux_2_99_x86_64', 'manylinux_2_x86_64',
        'manylinux_2_x_x86_64', 'musllinux_1_1_x86_64', 'musllinux_a_b_x86_64', 'win32']
OK_IP, OK_ABI = {'py3', 'cp310', 'cp39'}, {'none', 'abi3', 'cp310'}
OK_PLT = {'any', 'linux_x86_64', 'manylinux2014_x86_64'}


def sets(S, ni, na, np):
    i = intro(S, Elf(True, None))

    def some(n, k, options):
        return [S.pick(f'{n}{j}', options) for j in range(k)]

    a, b, c = some('i', ni, IPS), some('a', na, ABIS), some('p', np, PLTS)
    s = score(S, i, '.'.join(a) + '-' + '.'.join(b) + '-' + '.'.join(c))
    each = [score(S, i, f'{x}-{y}-{z}') for x in a for y in b for z in c]
    ok = any(x in OK_IP for x in a) and any(x in OK_ABI for x in b) and any(x in OK_PLT for x in c)
    S.trace(s is not None)
    S.reach('compatible' if ok else 'incompatible')
    S.check((s is not None) == ok, 'a set of tags is compatible exactly when one of its tags is', info=lambda: [a, b, c])
    each = [x for x in each if x is not None]
    S.check(s == (max(each) if each else None), 'a set of tags scores as its best tag', info=lambda: [a, b, c, s, each])


def malformed(S):
    i = intro(S)
    t = S.str('t', 'py3-.none_2a', 0, 5)
    s = score(S, i, t)
    S.reach('judged')
    S.check(s is None, 'a text that is not a tag is judged compatible', info=lambda: [t])


# ---------------------------------------------------------------------------------------------- order
def better(S, what, deep):
    """of two compatible tags that differ in one component, the more specific one scores higher"""
    m = 11
    i = intro(S, minor=m, vars_={'Py_DEBUG': 1} if what == 'abi' else None, glibc='glibc 2.28')
    ip, ab, pl = 'py3', 'none', 'any'
    ip = S.pick('ip', ['py3', 'cp311', 'cp38'][:3 if deep or what == 'abi' else 1])
    ab = S.pick('ab', ['none', 'abi3', 'cp311'][:3 if deep else 2])
    pl = S.pick('pl', ['any', 'linux_x86_64', 'manylinux2014_x86_64'][:3 if deep or what == 'abi' else 1])
    if what == 'abi':
        order = ['none', 'abi3', 'cp311', 'cp311d']
        x, y = S.int('x', 0, 3), S.int('y', 0, 3)
        S.assume(x < y)
        ta, tb = f'{ip}-{order[x]}-{pl}', f'{ip}-{order[y]}-{pl}'
    elif what == 'platform':
        k, l = S.str('k', '0123456789', 1, 2), S.str('l', '0123456789', 1, 2)
        kind = S.pick('kind', ['any', 'native', 'many'])
        pa = {'any': 'any', 'native': 'linux_x86_64', 'many': 'manylinux_2_' + k + '_x86_64'}[kind]
        S.assume(int(l) <= 28)
        if kind == 'many':
            S.assume(int(k) < int(l))
        ta, tb = f'{ip}-{ab}-' + pa, f'{ip}-{ab}-' + 'manylinux_2_' + l + '_x86_64'
    elif what == 'interpreter':
        k, l = S.str('k', '0123456789', 1, 2), S.str('l', '0123456789', 1, 2)
        S.assume(int(l) <= m)
        n1 = S.pick('n1', ['py', 'cp'])
        n2 = S.pick('n2', ['py', 'cp'])
        if n1 == n2:
            S.assume(int(k) < int(l))
        else:
            S.assume(n1 == 'py')
            S.assume(int(k) <= m)
        ta, tb = n1 + '3' + k + f'-{ab}-{pl}', n2 + '3' + l + f'-{ab}-{pl}'
    sa, sb = score(S, i, ta), score(S, i, tb)
    S.reach('compared')
    S.check(sa is not None and sb is not None, 'a compatible tag has no score', info=lambda: [ta, tb])
    S.check(sa < sb, 'the more specific tag does not score higher', info=lambda: [ta, sa, tb, sb])


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for prefix in ('manylinux_', 'musllinux_', 'linux', 'manylinux1', 'manylinux2010', 'manylinux2014', 'manylinux',
                   'linux_x', 'musllinux'):
        for arch, bits in (('x86_64', 64), ('i686', 32), ('aarch64', 64), ('armv7l', 32), ('s390x', 64)):
            for ok in (True, False):
                if not deep and prefix == 'manylinux_' and (arch, ok) not in (('x86_64', True), ('aarch64', False)):
                    continue
                out.append(Case(f'linux {prefix} {arch} {ok}', linux, dict(arch=arch, bits=bits, prefix=prefix, elf_ok=ok, deep=deep),
                                bounds='glibc 2.0 to 2.45, musl 1.0 to 1.5, tag versions of 1-2 digits',
                                reach=('incompatible',), timeout=400, weight=5 if prefix == 'manylinux_' else 1))
    out.append(Case('other platforms', other_platforms, bounds='a list of systems and tags',
                    reach=('compatible', 'incompatible')))
    out.append(Case('darwin', darwin, bounds='macos 10.4 to 10.15, 11, 13; tag minor versions of 1-2 digits',
                    reach=('compatible', 'incompatible'), weight=5, timeout=400))
    for impl in ('cpython', 'pypy', 'foo'):
        out.append(Case(f'interpreter {impl}', interpreter, dict(impl=impl),
                        bounds='own minor 0 to 21, tag versions of 1-3 digits', reach=('compatible', 'incompatible'),
                        timeout=400, weight=4))
    for m in (2, 3, 7, 8, 10, 12) + ((0, 1, 5, 6, 9, 11, 13, 14, 20) if deep else ()):
        out.append(Case(f'cpython abi {m}', cpython_abi, dict(minor=m),
                        bounds=f'CPython 3.{m}, every build flag, abi versions of 1-2 digits',
                        reach=('compatible', 'incompatible'), timeout=600))
    out.append(Case('other abi', other_abi, bounds='PyPy and unknown interpreters', reach=('compatible', 'incompatible')))
    for shape in ((1, 1, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1)) + (((2, 2, 2),) if deep else ()):
        out.append(Case(f'sets {shape}', sets, dict(ni=shape[0], na=shape[1], np=shape[2]),
                        bounds='tag sets drawn from compatible, incompatible and malformed tags', timeout=800,
                        reach=('compatible', 'incompatible'), weight=6))
    out.append(Case('malformed', malformed, bounds='texts up to 5 characters', reach=('judged',), timeout=300, weight=2))
    for what in ('abi', 'platform', 'interpreter'):
        out.append(Case(f'better {what}', better, dict(what=what, deep=deep),
                        bounds='pairs of compatible tags that differ in one component', reach=('compared',), timeout=400,
                        weight=4))
    return out
