"""F01: a copy transaction that fails leaves the file tree as it was; one that succeeds does what was asked."""
import tempfile

from pkm.utils import files
from pkm.utils.files import CopyTransaction

from props._fs import Fault, Faults, put, snap
from sx.session import Case

PROPERTY = 'F01'
ASSUMPTIONS = ['undoing does not itself run into failures; nobody else works on the tree meanwhile']

TREE = {'a.py': 'new a', 'sub/c.py': 'new c', 'sub/deep/d.py': 'new d'}
INITIAL = {'a.py': 'old', 'pkg': None, 'pkg/a.py': 'old pkg', 'pkg/sub/c.py': 'old c', 'pkg/other.py': 'other', 'pkg/sub/deep': 'a file'}


def ops(src, dst):
    """name -> (what it needs, action on the transaction, action on the model)"""
    def within(m, d):
        return [k for k in m if k == d or k.startswith(d + '/')]

    def mdirs(m, d):
        parts = d.split('/')
        for i in range(1, len(parts) + 1):
            m.setdefault('/'.join(parts[:i]), None)

    def mput(m, f, text):
        for k in within(m, f):
            del m[k]
        if '/' in f:
            mdirs(m, f.rsplit('/', 1)[0])
        m[f] = text.encode()

    def mtree(m, d, prefix='new'):
        mdirs(m, d)
        for k, v in TREE.items():
            mput(m, f'{d}/{k}', v.replace('new', prefix))

    def mrm(m, d):
        for k in within(m, d):
            del m[k]

    def special(s, t):
        t.write_text(s.read_text().replace('new', 'special'))

    def external(ct):
        ct.touch(dst / 'out.txt')
        (dst / 'out.txt').write_text('out')

    no_file_in_way = lambda m: m.get('pkg/sub/deep') is None
    return {
        'copy file': (lambda m: True, lambda ct: ct.copy(src / 'x', dst / 'a.py'), lambda m: mput(m, 'a.py', 'x')),
        'copy to pkg': (lambda m: True, lambda ct: ct.copy(src / 'x', dst / 'pkg/a.py'), lambda m: mput(m, 'pkg/a.py', 'x')),
        'copy deep': (no_file_in_way, lambda ct: ct.copy(src / 'x', dst / 'pkg/sub/deep/d.py'),
                      lambda m: mput(m, 'pkg/sub/deep/d.py', 'x')),
        'copy tree': (no_file_in_way, lambda ct: ct.copy_tree(src / 'tree', dst / 'pkg'), lambda m: mtree(m, 'pkg')),
        'copy to new': (lambda m: True, lambda ct: ct.copy_tree(src / 'tree', dst / 'n/m'), lambda m: mtree(m, 'n/m')),
        'copy how': (no_file_in_way, lambda ct: ct.copy_tree(src / 'tree', dst / 'pkg', file_copy=special),
                     lambda m: mtree(m, 'pkg', 'special')),
        'mkdir': (no_file_in_way, lambda ct: ct.mkdir(dst / 'pkg/sub/deep'), lambda m: mdirs(m, 'pkg/sub/deep')),
        'rm file': (lambda m: 'a.py' in m, lambda ct: ct.rm(dst / 'a.py'), lambda m: mrm(m, 'a.py')),
        'rm dir': (lambda m: 'pkg' in m, lambda ct: ct.rm(dst / 'pkg'), lambda m: mrm(m, 'pkg')),
        'touch': (lambda m: 'out.txt' not in m, external, lambda m: mput(m, 'out.txt', 'out')),
    }


def transaction(S, n, names=None, initial=tuple(INITIAL)):
    root = S.scratch()
    src, dst, tmp = root / 'src', root / 'dst', root / 'tmp'
    put(src, {'x': 'x', **{f'tree/{k}': v for k, v in TREE.items()}})
    dst.mkdir()
    tmp.mkdir()
    S.patch(tempfile, 'tempdir', str(tmp))
    S.patch(files, 'print', lambda *a, **k: None)
    import traceback
    S.patch(traceback, 'print_exc', lambda *a, **k: None)
    there = {k: v for k, v in INITIAL.items() if k not in initial or S.flag(f'has {k}')}
    S.assume('pkg/sub/deep' not in there or 'pkg/sub/c.py' in there)
    S.assume('pkg' in there or not any('/' in k for k in there))
    put(dst, there)
    before = snap(dst)
    table = ops(src, dst)
    names = names or list(table)
    model, todo = dict(before), []
    for i in range(n):
        op = S.pick(f'op{i}', names)
        need, act, effect = table[op]
        S.assume(need(model))
        effect(model)
        todo.append((op, act))
    at, half = S.free_int('fails at', 0, None), S.flag('half way')
    fail_end = S.flag('fails at the end')
    faults = Faults(S, at, half)
    faults.install()

    class End(Exception):
        pass
    raised, listed = None, []
    try:
        with CopyTransaction() as ct:
            faults.n = 0
            try:
                for _, act in todo:
                    act(ct)
                if fail_end:
                    raise End()
            finally:
                faults.on = False
                listed = {str(p.relative_to(dst)) for p in ct.copied_files}
    except (End, Fault) as e:
        raised = e
    after = snap(dst)
    S.trace(sorted(after), type(raised).__name__)
    inf = lambda: [sorted(there), [o for o, _ in todo], faults.failed, faults.n, sorted(after)]
    if faults.failed or fail_end:
        S.reach('failed')
        S.check(raised is not None, 'a failure is swallowed', info=inf)
        S.check(after == before, 'a failed transaction leaves changes behind',
                info=lambda: [*inf(), 'too much', [k for k in after if k not in before], 'changed or missing',
                              [k for k in before if after.get(k, 0) != before[k]]])
    else:
        S.reach('done')
        S.check(raised is None, 'a transaction fails for no reason', info=inf)
        S.check(after == model, 'a transaction does not do what was asked', info=lambda: [*inf(), sorted(model)])
        new = {k for k, v in after.items() if k not in before}
        S.check(new <= listed, 'what was created is not listed', info=lambda: [*inf(), sorted(listed)])
        S.check({k for k in listed if k in before and before[k] == after.get(k, 0) and before[k] is not None} == set(),
                'what was there before is listed as created', info=lambda: [*inf(), sorted(listed)])
    S.check(not list(tmp.iterdir()), 'temporary files are left', info=inf)


def cases(tier):
    deep = tier == 'thorough'
    T = 2000 if deep else 300
    out = []
    for first in ('copy', 'tree', 'rest'):
        names = {'copy': ['copy file', 'copy to pkg', 'copy deep', 'rm file'], 'tree': ['copy tree', 'copy to pkg', 'rm dir'],
                 'rest': ['copy how', 'mkdir', 'copy to new', 'touch']}[first]
        out.append(Case(f'two {first}', transaction, dict(n=2, names=names), f'two of {names}, any failing operation',
                        reach=('failed', 'done'), timeout=T, sandbox=True, weight=6, best_effort=deep))
    out.append(Case('one', transaction, dict(n=1), 'one operation of any kind', reach=('failed', 'done'), timeout=T, sandbox=True, weight=3))
    if deep:
        out.append(Case('three', transaction, dict(n=3), 'three of any', reach=('failed', 'done'), timeout=3000, sandbox=True, weight=20, best_effort=True))
    return out
