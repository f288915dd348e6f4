"""B01: bumping a version gives a later version of the requested kind."""
from pkm.api.versions.version import NamedVersion, StandardVersion, UrlVersion
from pkm.utils.commons import UnsupportedOperationException

from props.v01 import mk_std, ref_cmp_seq, ref_key
from sx.session import Case

PROPERTY = 'B01'
ASSUMPTIONS = ['versions have three release numbers (others are refused, which is checked)']
PARTICLES = ['major', 'minor', 'patch', 'a', 'b', 'rc']


def bump(S, particle):
    local = 'cu1' if S.flag('local') else None
    v = mk_std(S, 'v', 3, lambda n: S.free_int(n, 0), local=local)
    n = v.bump(particle)
    S.reach('bumped')
    S.check(ref_cmp_seq(ref_key(v, 3), ref_key(n, 3)) < 0, 'the bumped version is not later',
            info=lambda: [str(v), particle, str(n)])
    S.check(S.all([n.post_release is None, n.dev_release is None, n.local_label is None, len(n.release) == 3]),
            'the bumped version keeps post, dev or local parts', info=lambda: [str(v), particle, str(n)])
    S.check((n.epoch or 0) == (v.epoch or 0), 'the epoch changes', info=lambda: [str(v), particle, str(n)])
    a, b, c = v.release
    rel = list(n.release)
    if particle in ('major', 'minor', 'patch'):
        want = {'major': [a + 1, 0, 0], 'minor': [a, b + 1, 0], 'patch': [a, b, c + 1]}[particle]
        S.check(S.all([rel[i] == want[i] for i in range(3)] + [n.pre_release is None]),
                'not the next version of its kind', info=lambda: [str(v), particle, str(n)])
    else:
        S.check(n.pre_release is not None and n.pre_release[0] == particle, 'not a pre release of the requested kind',
                info=lambda: [str(v), particle, str(n)])
        S.check(S.all([rel[0] == a, rel[1] == b, S.any([rel[2] == c, rel[2] == c + 1])]),
                'a pre release of a distant release', info=lambda: [str(v), particle, str(n)])
        if v.pre_release is not None and v.pre_release[0] == particle:
            S.check(S.all([rel[2] == c, n.pre_release[1] == v.pre_release[1] + 1]),
                    'not the next pre release', info=lambda: [str(v), particle, str(n)])
        else:
            S.check(n.pre_release[1] == 0, 'not the first pre release of its kind',
                    info=lambda: [str(v), particle, str(n)])
            if v.pre_release is not None:
                S.check((rel[2] == c) == ('a b rc'.split().index(v.pre_release[0]) < 'a b rc'.split().index(particle)),
                        'not the closest pre release', info=lambda: [str(v), particle, str(n)])


def refused(S):
    k = S.pick('k', ['named', 'url', 'short', 'long', 'unknown'])
    particle = S.pick('particle', PARTICLES)
    if k == 'unknown':
        particle = S.str('p', 'abcrjx', 1, 2)
        for x in PARTICLES:
            S.assume(particle != x)
    v = {'named': lambda: NamedVersion('x'), 'url': lambda: UrlVersion.parse('https://h/x'),
         'short': lambda: StandardVersion((S.free_int('a', 0), S.free_int('b', 0))),
         'long': lambda: StandardVersion((1, 2, 3, S.free_int('d', 0))),
         'unknown': lambda: mk_std(S, 'v', 3, lambda n: S.free_int(n, 0), ('pre', 'post'))}[k]()
    try:
        n = v.bump(particle)
    except (UnsupportedOperationException, ValueError, AttributeError):
        S.reach('refused ' + k)
        return
    S.check(False, 'a version is bumped that has no such part', info=lambda: [str(v), particle, str(n)])


def cases(tier):
    return [Case(f'bump {p}', bump, dict(particle=p), bounds='any version of three release numbers, unbounded numbers',
                 reach=('bumped',), timeout=200) for p in PARTICLES] + \
           [Case('refused', refused, bounds='named, url, short and long versions; unknown particles up to 2 letters',
                 reach=tuple('refused ' + k for k in ['named', 'url', 'short', 'long', 'unknown']))]
