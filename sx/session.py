"""The harness interface, identical for symbolic exploration and for the concrete replay on the unmodified code."""
from __future__ import annotations

import json
import os
import pathlib
import re
import shutil
import sys
import tempfile
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Dict, List, Optional, Sequence


class Diverged(BaseException):
    """the code under test ran on beyond the bound of S.bounded"""


class Stop(BaseException):
    """ends a concrete run"""


@dataclass
class Case:
    name: str
    fn: Callable
    params: Dict[str, Any] = field(default_factory=dict)
    bounds: str = ''
    reach: Sequence[str] = ()  # labels that must be reached by some path (vacuity witnesses)
    timeout: float = 240.0
    best_effort: bool = False  # thorough tier only: running out of time is reported, not fatal
    sandbox: bool = False  # run as an unprivileged user
    weight: float = 1.0


_SCRATCH = re.compile(r'^.*?/s_(\d+)_\w{8}(?=/|$)')


def _path_hash(self):
    """sets of paths are iterated in the same order whatever the scratch directories are called"""
    s = _SCRATCH.sub(r'/\1', str(self))
    return hash(s.lower() if isinstance(self, pathlib.PureWindowsPath) else s)


pathlib.PurePath.__hash__ = _path_hash


def plain(x, depth=10):
    """canonical json-able form of an observation"""
    if x is None or type(x) in (bool, int, str, float):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(i, depth - 1) for i in x]
    if isinstance(x, dict):
        return [[plain(k, depth - 1), plain(v, depth - 1)] for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(i, depth - 1) for i in x), key=lambda v: json.dumps(v))
    return repr(x)


class _Base:
    symbolic = False
    known_ids: frozenset = frozenset()

    def __init__(self):
        self._scratch: List[Path] = []
        self._cleanups: List[Callable] = []

    def scratch(self) -> Path:
        p = Path(tempfile.mkdtemp(prefix=f's_{len(self._scratch)}_', dir=os.environ['SX_SCRATCH']))
        self._scratch.append(p)
        return p

    def bounded(self, f, steps):
        """f(), but raises Diverged when code of the repository starts functions and jumps more often than `steps`"""
        import sys
        mon = sys.monitoring
        prefix = os.environ.get('SX_REPO', '/repo') + '/'
        left = [steps]

        def tick(code, *a):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            left[0] -= 1
            if left[0] < 0:
                raise Diverged()

        ev = mon.events
        mon.use_tool_id(mon.PROFILER_ID, 'sxb')
        try:
            mon.register_callback(mon.PROFILER_ID, ev.PY_START, tick)
            mon.register_callback(mon.PROFILER_ID, ev.JUMP, tick)
            mon.set_events(mon.PROFILER_ID, ev.PY_START | ev.JUMP)
            return f()
        finally:
            mon.set_events(mon.PROFILER_ID, 0)
            mon.free_tool_id(mon.PROFILER_ID)

    def on_exit(self, f):
        self._cleanups.append(f)

    def patch(self, obj, name, value):
        """setattr that is undone at the end of the path"""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

        self.on_exit(undo)

    def finish(self):
        for f in reversed(self._cleanups):
            f()
        self._cleanups.clear()
        for p in self._scratch:
            if str(p).startswith(os.environ['SX_SCRATCH']):
                for root, dirs, _ in os.walk(p):
                    for d in dirs:
                        if not os.path.islink(os.path.join(root, d)):
                            os.chmod(os.path.join(root, d), 0o700)
                shutil.rmtree(p, ignore_errors=True)
        self._scratch.clear()


class ConcreteSession(_Base):
    def __init__(self, inputs: Dict[str, Any], known_ids=()):
        super().__init__()
        self.inputs = inputs
        self.known_ids = frozenset(known_ids)
        self.failures: List[Dict[str, Any]] = []
        self.known_hits: List[str] = []
        self.traces: List[Any] = []
        self.missing: List[str] = []
        self.reached: set = set()

    def _get(self, name, default):
        if name not in self.inputs:  # the real code went on where the symbolic path had ended
            self.missing.append(name)
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def free_int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else hi if hi is not None else 0)

    def flag(self, name):
        return bool(self._get(name, False))

    def char(self, name, alphabet):
        return self._get(name, alphabet[0])

    def str(self, name, alphabet, lo, hi):
        return self._get(name, alphabet[0] * lo if lo else '')

    def pick(self, name, options):
        return options[self._get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise Stop('assume')

    def check(self, cond, label, known=None, info=None):
        if callable(cond):
            cond = cond()
        if cond:
            return
        for kid, pred in (known or {}).items():
            if kid in self.known_ids and pred:
                self.known_hits.append(kid)
                raise Stop('known')
        self.failures.append({'label': label, 'info': plain(info() if callable(info) else info)})
        raise Stop('failed')

    def reach(self, label):
        self.reached.add(label)

    def trace(self, *x):
        self.traces.append(plain(x))

    def all(self, it):
        return all(it)

    def any(self, it):
        return any(it)

    def not_(self, b):
        return not b

    def conc(self, x):
        return x

    def const_hash(self):
        """hash all symbolic integers alike, so that sets and dicts compare them (only where all the integers that
        meet in one container are symbolic, and nothing depends on iteration order)"""


class SymSession(_Base):
    symbolic = True

    def __init__(self, eng, known_ids=(), record=None):
        super().__init__()
        self.eng = eng
        self.known_ids = frozenset(known_ids)
        self.record = record  # collector

    def _declare(self, name, v):
        if name in self.eng.inputs:
            raise RuntimeError('input declared twice: ' + name)
        self.eng.inputs[name] = v

    def int(self, name, lo, hi):
        from .values import SymInt
        if lo == hi:
            v = lo
        else:
            v = SymInt(self.eng.declare(name, range(lo, hi + 1)))
        self._declare(name, v)
        return v

    def free_int(self, name, lo=None, hi=None):
        """an integer with solver (not enumerated) domain, possibly unbounded"""
        import z3
        from .core import Cond
        from .values import SymInt
        z = z3.Int(name)
        fv = _free(name)
        v = SymInt(term=z, vars_=(fv,))
        self._declare(name, v)
        for c in ([z >= lo] if lo is not None else []) + ([z <= hi] if hi is not None else []):
            self.eng._note(Cond(term=c, vars_=(fv,)))
        return v

    def flag(self, name):
        from .core import Cond
        from .values import SymBool
        var = self.eng.declare(name, (0, 1))
        v = SymBool(Cond(var, frozenset((1,))))
        self._declare(name, v)
        return v

    def char(self, name, alphabet):
        from .values import SymInt, mkstr
        if len(alphabet) == 1:
            v = alphabet
        else:
            v = mkstr((SymInt(self.eng.declare(name, frozenset(map(ord, alphabet)))),))
        self._declare(name, v)
        return v

    def str(self, name, alphabet, lo, hi):
        from .values import SymInt, SymStr, mkstr
        n = lo
        if hi > lo:
            n = SymInt(self.eng.declare(name + '#len', range(lo, hi + 1))).concretize()
        codes = frozenset(map(ord, alphabet))
        v = mkstr([SymInt(self.eng.declare(f'{name}#{i}', codes)) for i in range(n)])
        self._declare(name, v)
        return v

    def pick(self, name, options):
        from .values import SymInt
        if len(options) == 1:
            self._declare(name, 0)
            return options[0]
        v = SymInt(self.eng.declare(name, range(len(options))))
        self._declare(name, v)
        return options[v.concretize()]

    def assume(self, cond):
        from .values import SymBool
        from .core import PathStop
        if type(cond) is SymBool:
            self.eng.assume(cond.cond)
        elif not cond:
            self.eng.abort(PathStop())

    def check(self, cond, label, known=None, info=None):
        from .core import PathStop
        from .values import SymBool, and_all, not_
        eng = self.eng
        if callable(cond):
            cond = cond()
        frontier = eng.pos >= len(eng.stack)
        if frontier:
            eng.stats.checks += 1
        if type(cond) is not SymBool and cond:
            return
        neg = not_(cond) if type(cond) is SymBool else True
        if frontier:
            rest = [neg]
            for kid, pred in (known or {}).items():
                if kid not in self.known_ids:
                    continue
                hit = and_all((neg, pred))
                if hit is not False:
                    inputs = self._model(hit)
                    if inputs is not None:
                        self.record.known(kid, label, inputs)
                rest.append(not_(pred))
            bad = and_all(rest)
            if bad is not False:
                eng.stats.check_queries += 1
                inputs = self._model(bad)
                if inputs is not None:
                    self.record.candidate(label, inputs, None)
                    if self.record.full():
                        from .core import BudgetExceeded
                        eng.abort(BudgetExceeded('candidates'))
        if type(cond) is SymBool:
            self.eng.assume(cond.cond)
        else:
            eng.abort(PathStop())

    def _model(self, b):
        if b is True:
            return self.eng.model_inputs()
        return self.eng.model_inputs((b.cond,))

    def reach(self, label):
        self.record.reached.add(label)

    def trace(self, *x):
        self.eng.trace.append(list(x))

    def all(self, it):
        from .values import and_all
        return and_all(it)

    def any(self, it):
        from .values import or_any
        return or_any(it)

    def not_(self, b):
        from .values import not_
        return not_(b)

    def const_hash(self):
        self.eng.const_hash = True

    def conc(self, x):
        from .values import deep_conc
        return deep_conc(x)


class _FreeVar:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


_FREE: Dict[str, _FreeVar] = {}


def _free(name):
    return _FREE.setdefault(name, _FreeVar(name))
