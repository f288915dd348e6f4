"""F03: uninstalling a package removes its recorded files and nothing else."""
import csv
from pathlib import Path

from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distinfo import DistInfo
from pkm.api.distributions.wheel_distribution import WheelDistribution
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.packages.site_packages import InstalledPackage, SitePackages
from pkm.api.versions.version import StandardVersion

from props._fs import put, snap
from props._wheel import DATA, DIST, INFO, NAME, descriptor, place, pyc_of, record_of, target_in, wheel_files, write_wheel
from props.f02 import PARTS, POINTS, SCRIPTS, silent
from sx.session import Case

PROPERTY = 'F03'
ASSUMPTIONS = ['no file system failures while uninstalling']

OTHERS = {'lib/site/pkg/theirs.py': 'T = 1\n', 'lib/site/pkg/sub/theirs.txt': 't', 'lib/site/other.py': 'O', 'bin/other': 'o',
          'lib/site/Other-1.dist-info/METADATA': 'Name: Other\nVersion: 1\n', 'lib/site/Other-1.dist-info/RECORD': 'other.py,,\n',
          'share/my/y.txt': 'y', 'lib/site2/x.txt': 'x'}


def dirs_of(files):
    return {str(p) for f in files for p in Path(f).parents if str(p) != '.'}


def wheel_into(S, root, parts, points, purelib=True, request=None, more=None):
    files = {}
    for p in parts:
        files.update(PARTS[p])
    files.update(more or {})
    files = wheel_files(purelib, POINTS if points else '', files)
    wheel = root.parent / f'{DIST}-py3-none-any.whl'
    write_wheel(wheel, files, record_of(files))
    WheelDistribution(descriptor(), wheel).install_to(target_in(root), request)
    return files


def uninstall(S, parts, others, linked):
    root = S.scratch() / 'env'
    root.mkdir()
    silent(S, root.parent)
    site = 'lib/site'
    if linked:
        (root / 'lib').mkdir()
        (root / 'lib64').symlink_to('lib')
    there = {k: v for i, (k, v) in enumerate(OTHERS.items()) if i in others or S.flag(f'has {k}')}
    put(root, there)
    chosen = [p for p in parts if S.flag(p)]
    if 'odd' in chosen:
        S.assume('package' in chosen)
    points = bool(S.flag('entry points'))
    before = snap(root)
    files = wheel_into(S, root, chosen, points, purelib=not linked)
    # what happens to the environment afterwards
    want, info = place(files, scripts=SCRIPTS if points else ())
    change = S.pick('meanwhile', ['nothing', 'added', 'removed', 'modified', 'cached', 'half gone'])
    extra = {}
    code = sorted(k for k in want if '.dist-info' not in k and k.startswith('lib/site'))
    S.assume(change == 'nothing' or code)
    if change == 'added':
        extra = {'lib/site/pkg/sub/mine.txt': 'mine', 'lib/site/mine.py': 'mine'}
        put(root, extra)
    elif change == 'removed':
        (root / code[0]).unlink()
    elif change == 'modified':
        (root / code[-1]).write_text('changed')
    elif change == 'cached':
        put(root, {str(Path(code[-1]).parent / '__pycache__/x.cpython-30.pyc'): 'old'} if Path(code[-1]).parent.name != 'site' else {})
    elif change == 'half gone':
        for k in code:
            (root / k).unlink()
    target = target_in(root)
    packages = SitePackages(target.env, Path(target.purelib), Path(target.platlib))
    p = packages.installed_package('my.PKG')
    S.check(p is not None, 'an installed package is not found')
    p.uninstall()
    after = snap(root)
    S.trace(sorted(after), change)
    inf = lambda: [chosen, points, sorted(there), change, 'too much', [k for k in after if k not in before and k not in extra],
                   'missing', [k for k in {**before, **extra} if k not in after]]
    expected = {k: v for k, v in before.items()}
    gone = set(want) - set(extra)
    S.check(not [k for k in after if k in gone and before.get(k) is None], 'an installed file is left', info=inf)
    # files of others are as they were (a cache of compiled files may go, files both wrote belong to the last)
    for k, v in expected.items():
        if v is not None and '__pycache__' not in k and k not in want:
            S.check(after.get(k) == v, 'a file of another package is removed', info=inf)
    for k in extra:
        if k not in want:
            S.check(k in after, 'a file that was added later is removed', info=inf)
    left = {k for k, v in after.items() if v is not None and k not in before and k not in extra and '__pycache__' not in k}
    S.check(not left, 'files are left', info=inf)
    keep = dirs_of([*[k for k, v in after.items() if v is not None]])
    empty = {k for k, v in after.items() if v is None and k.startswith('lib/site/') and k not in keep and k not in before}
    S.check(not empty, 'empty directories are left', info=lambda: [*inf(), sorted(empty)])
    S.check(all(k in after for k, v in before.items() if v is None and k in dirs_of(there)), 'a directory in use is removed', info=inf)
    S.check(packages.installed_package(NAME) is None, 'an uninstalled package is still found', info=inf)
    S.reach('uninstalled')


class Newer(Package):
    """another version of the package, as a repository offers it"""

    def __init__(self, wheel):
        self.wheel = wheel

    @property
    def descriptor(self):
        return PackageDescriptor(NAME.lower(), StandardVersion((2, 0)))

    def dependencies(self, target, extras=None):
        return []

    def is_compatible_with(self, env):
        return True

    def install_to(self, target, user_request=None, store_mode=StoreMode.AUTO):
        WheelDistribution(self.descriptor, self.wheel).install_to(target, user_request)


def update(S):
    """from one version to another: what only the old one has goes, what the user requested stays requested"""
    root = S.scratch() / 'env'
    root.mkdir()
    silent(S, root.parent)
    there = OTHERS if S.flag('has others') else {}
    put(root, there)
    before = snap(root)
    old = [p for p in ('module', 'package', 'scripts') if S.flag(f'old {p}')]
    new = [p for p in ('module', 'package', 'scripts') if S.flag(f'new {p}')]
    asked = Dependency.parse('my-pkg>=1') if S.flag('requested before') else None
    again = Dependency.parse('my-pkg>=2') if S.flag('requested now') else None
    points = bool(S.flag('old entry points'))
    old_files = wheel_into(S, root, old, points, request=asked)
    wheel = root.parent / 'My_Pkg-2.0-py3-none-any.whl'
    files = {}
    for p in new:
        files.update({k: v if isinstance(v, bytes) else v + '# 2\n' for k, v in PARTS[p].items()})
    files = {k.replace('-1.0', '-2.0'): v.replace(b'Version: 1.0\n', b'Version: 2.0\n') if k.endswith('METADATA') else v
             for k, v in wheel_files(True, '', files).items()}
    write_wheel_2(wheel, files)
    target = target_in(root)
    Newer(wheel).update_at(target, again)
    after = snap(root)
    want = {}
    for k, v in files.items():
        want[k.replace('My_Pkg-2.0.data/scripts', 'bin') if '.data/' in k else f'lib/site/{k}'] = v
    S.trace(sorted(after))
    inf = lambda: [old, new, sorted(after)]
    for k, v in want.items():
        S.check(k in after and (after[k] == v or k.startswith('bin/')), 'a file of the new version is not there', info=lambda: [k, *inf()])
    info = 'lib/site/My_Pkg-2.0.dist-info'
    left = {k for k, v in after.items() if v is not None and k not in want and before.get(k, 0) != v and '__pycache__' not in k
            and not k.startswith(info)}
    S.check(not left, 'files of the old version are left', info=lambda: [sorted(left), *inf()])
    S.check(all(after.get(k) == v for k, v in before.items() if v is not None and k not in want and '__pycache__' not in k),
            'a file of another package is changed', info=inf)
    text = after.get(f'{info}/REQUESTED')
    expect = again or asked
    S.check((text is None) == (expect is None) and (text is None or Dependency.parse(text.decode()) == expect),
            'the request of the user is lost', info=lambda: [str(asked), str(again), text])
    S.reach('updated')


def write_wheel_2(path, files):
    write_wheel(path, {**files, 'My_Pkg-2.0.dist-info/RECORD': record_of(files).replace(
        f'{INFO}/RECORD'.encode(), b'My_Pkg-2.0.dist-info/RECORD')}, None)


def cases(tier):
    deep = tier == 'thorough'
    T = 2400 if deep else 400
    out = [Case('uninstall', uninstall, dict(parts=['module', 'package', 'odd', 'scripts'], others=[] if deep else [2, 3, 4, 5, 6, 7], linked=False),
                'any parts, next to any other files, after any of six changes', reach=('uninstalled',), timeout=T, sandbox=True, weight=8,
                best_effort=deep),
           Case('data', uninstall, dict(parts=['data', 'headers', 'lib'], others=[0, 1, 2, 3, 4, 5], linked=False),
                'data files and headers', reach=('uninstalled',), timeout=T, sandbox=True, weight=6),
           Case('linked', uninstall, dict(parts=['module', 'package'], others=[0, 2, 3, 4, 5, 6, 7], linked=True),
                'a site that is reached over a symbolic link', reach=('uninstalled',), timeout=T, sandbox=True, weight=6),
           Case('update', update, {}, 'from any parts to any parts', reach=('updated',), timeout=T, sandbox=True, weight=8)]
    return out
