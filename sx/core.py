"""Dynamic symbolic execution core: path exploration over z3.

A *path* is one execution of a harness.  Every time the executed code asks for the truth of a symbolic
condition, `Engine.decide` forks: both outcomes are explored if feasible.  Exploration is by re-execution with a
decision prefix (depth first), it is deterministic, and it is exhaustive within the bounds of the declared inputs
unless `Engine.incomplete` says otherwise.
"""
from __future__ import annotations

import time
from typing import Any, Callable, Dict, List, Optional, Tuple

import z3


class PathStop(BaseException):
    """ends the current path (assumption is infeasible)"""


class BudgetExceeded(BaseException):
    """exploration budget (time or paths) exhausted"""


class EngineUnsupported(BaseException):
    """the code did something with a symbolic value that the engine cannot follow"""


class Candidate(BaseException):
    """a counterexample candidate was found on this path (label, inputs)"""


class DomVar:
    """a solver variable over a finite set of integers (codes)"""
    __slots__ = ('name', 'z', 'base', 'kind', 'lo', 'hi', 'relname')

    def __init__(self, name: str, base, kind: str):
        self.name = name
        self.z = z3.Int(name)
        self.base = frozenset(base)
        self.kind = kind
        self.lo = min(self.base)
        self.hi = max(self.base)


def in_set_term(z, codes, base=None):
    codes = sorted(codes)
    if not codes:
        return z3.BoolVal(False)
    parts = []
    i = 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        if i == j:
            parts.append(z == codes[i])
        else:
            parts.append(z3.And(z >= codes[i], z <= codes[j]))
        i = j + 1
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


class Cond:
    """a symbolic condition: a unary predicate on a DomVar, a conjunction of such, or a general z3 term"""
    __slots__ = ('var', 'codes', 'conj', '_term', 'vars', 'rel')

    def __init__(self, var: Optional[DomVar] = None, codes: Optional[frozenset] = None, term=None, vars_=(),
                 conj: Optional[dict] = None, rel=None):
        self.rel = rel  # (key, mask): a comparison of two terms, mask of the possible outcomes <:1 =:2 >:4
        self.var = var
        self.codes = codes
        self.conj = conj  # {var: codes}
        self._term = term
        self.vars = tuple(conj) if conj is not None else vars_

    @property
    def term(self):
        if self._term is None:
            if self.conj is not None:
                self._term = z3.And(*[in_set_term(v.z, c) for v, c in self.conj.items()])
            else:
                self._term = in_set_term(self.var.z, self.codes)
        return self._term

    def negate(self) -> 'Cond':
        if self.var is not None:
            return Cond(self.var, self.var.base - self.codes)
        rel = self.rel
        return Cond(term=z3.Not(self.term), vars_=self.vars, rel=None if rel is None else (rel[0], 7 ^ rel[1], rel[2]))

    def allvars(self):
        return (self.var,) if self.var is not None else self.vars


TRUE = Cond(term=z3.BoolVal(True))
FALSE = Cond(term=z3.BoolVal(False))


_CURRENT: List[Optional['Engine']] = [None]


def engine() -> 'Engine':
    return _CURRENT[0]


class _Entry:
    __slots__ = ('kind', 'value', 'alt', 'cond', 'model')

    def __init__(self, kind, value, alt, cond, model=None):
        self.model = model  # a model of the alternative (before it is taken), of the path (after)
        self.kind = kind  # 'b' branch, 'v' value
        self.value = value
        self.alt = alt
        self.cond = cond  # Cond that holds on this path because of this entry


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.dom_decided = 0
        self.solver_s = 0.0
        self.checks = 0
        self.check_queries = 0
        self.stopped = 0
        self.concretizations = 0
        self.fallback_runs = 0
        self.unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self, timeout_s: float = 600, max_paths: int = 10 ** 9, query_timeout_ms: int = 60_000):
        self.stats = Stats()
        self.deadline = time.monotonic() + timeout_s
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.stack: List[_Entry] = []
        self.incomplete: List[str] = []
        self._last_model = None
        self._reset_path()
        self._in_solver: List[Any] = []  # the conds asserted in the solver, one push each

    def _reset_path(self):
        self.pos = 0
        self.pc: List[Cond] = []
        self.dom: Dict[DomVar, frozenset] = {}
        self.rel: set = set()
        self.relmask: Dict[Any, Any] = {}
        self.vars: Dict[str, DomVar] = {}
        self.inputs: Dict[str, Any] = {}  # name -> symbolic value as declared
        self.trace: List[Any] = []
        self.aborted = None
        self.const_hash = False
        self.uid = 0
        self._model = None
        self._model_len = -1

    # ------------------------------------------------------------------ solver
    def _sync(self):
        """bring the solver to the current path condition"""
        n = 0
        ins = self._in_solver
        pc = self.pc
        while n < len(ins) and n < len(pc) and ins[n] is pc[n]:
            n += 1
        if n < len(ins):
            self.solver.pop(len(ins) - n)
            del ins[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c.term)
            ins.append(c)

    def _query(self, *conds) -> bool:
        """is pc and conds satisfiable"""
        if time.monotonic() > self.deadline:
            raise BudgetExceeded('time')
        t0 = time.perf_counter()
        self._sync()
        vs = set()
        for c in conds:
            vs.update(c.allvars())
        self.solver.push()
        try:
            for c in conds:
                self.solver.add(c.term)
            r = self.solver.check()
            self.stats.queries += 1
            if r == z3.unknown:
                self.stats.unknown += 1
                raise BudgetExceeded(f'solver unknown: {self.solver.reason_unknown()}')
            if r == z3.sat:
                self._last_model = self.solver.model()
                return True
            return False
        finally:
            self.solver.pop()
            self.stats.solver_s += time.perf_counter() - t0

    # ------------------------------------------------------------------ constraints
    def _eval(self, cond: Cond):
        """the truth of cond in the model of the current path, None if there is no such model"""
        if self._model is None:
            return None
        return z3.is_true(self._model.eval(cond.term, model_completion=True))

    def _note(self, cond: Cond, keep_model=False):
        """record that cond holds on this path"""
        self.pc.append(cond)
        if not keep_model:
            self._model = None
        if cond.var is not None:
            v = cond.var
            self.dom[v] = self.dom.get(v, v.base) & cond.codes
        elif cond.conj is not None:
            for v, codes in cond.conj.items():
                self.dom[v] = self.dom.get(v, v.base) & codes
        else:
            self.rel.update(cond.vars)
            r = cond.rel
            if r is not None:
                old = self.relmask.get(r[0])
                self.relmask[r[0]] = (r[1] if old is None else old[0] & r[1], r[2])

    def declare(self, name: str, base, kind: str = 'int') -> DomVar:
        """a solver variable ranging over `base`; re-executions of a path get the very same object"""
        base = frozenset(base)
        key = (name, base)
        c = _DECL_CACHE.get(key)
        if c is None:
            c = _DECL_CACHE[key] = Cond(DomVar(name, base, kind), base)
        self.vars[name] = c.var
        self.pc.append(c)
        return c.var

    def quick(self, cond: Cond) -> Optional[bool]:
        """decide by the finite domains alone, None if they do not settle it"""
        if cond.var is not None:
            d = self.dom.get(cond.var, cond.var.base)
            inter = d & cond.codes
            if not inter:
                return False
            return True if len(inter) == len(d) else None
        if cond.conj is not None:
            full = True
            for v, codes in cond.conj.items():
                d = self.dom.get(v, v.base)
                inter = d & codes
                if not inter:
                    return False
                full = full and len(inter) == len(d)
            return True if full else None
        r = cond.rel
        if r is not None:
            m = self.relmask.get(r[0])
            if m is not None:
                if not m[0] & r[1]:
                    return False
                if m[0] & ~r[1] == 0:
                    return True
        t = cond._term
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return None

    def _independent(self, cond: Cond) -> bool:
        """both outcomes are possible by the domains alone (quick() is None and no relational constraint matters)"""
        if cond.var is not None:
            return cond.var not in self.rel
        return cond.conj is not None and self.rel.isdisjoint(cond.conj)

    def _pop_entry(self, kinds: str) -> _Entry:
        e = self.stack[self.pos]
        if e.kind not in kinds:
            raise RuntimeError("non deterministic re-execution")
        self.pos += 1
        self._note(e.cond)
        if self.pos == len(self.stack):
            self._model = e.model
        return e

    def _push_entry(self, e: _Entry, model=None):
        self.stack.append(e)
        self.pos += 1
        self._note(e.cond)
        self._model = model

    def decide(self, cond: Cond) -> bool:
        if self.aborted is not None:
            raise self.aborted
        q = self.quick(cond)
        if q is not None:
            return q
        if self.pos < len(self.stack):
            return self._pop_entry('b').value

        self.stats.branches += 1
        if time.monotonic() > self.deadline:
            self.abort(BudgetExceeded('time'))
        model = alt_model = None
        if self._independent(cond):
            t = f = True
            self.stats.dom_decided += 1
            if self._model is not None and self._eval(cond):
                model = self._model
        else:
            known = self._eval(cond)
            if known is None:
                t = self._query(cond)
                model = self._last_model
                if t:
                    f = self._query(cond.negate())
                    alt_model = self._last_model
                else:
                    f, model = True, None
            elif known:
                t, model = True, self._model
                f = self._query(cond.negate())
                alt_model = self._last_model
            else:
                f, alt_model = True, self._model
                t = self._query(cond)
                model = self._last_model if t else alt_model
        if t:
            e = _Entry('b', True, f, cond, alt_model if f else None)
        else:
            e = _Entry('b', False, False, cond.negate())
        self._push_entry(e, model)
        return e.value

    def abort(self, ex):
        self.aborted = ex
        raise ex

    def assume(self, cond: Cond):
        """restrict the path; no alternative is explored"""
        if self.aborted is not None:
            raise self.aborted
        q = self.quick(cond)
        if q is True:
            return
        if q is False:
            self.abort(PathStop())
        if self.pos < len(self.stack):
            self._pop_entry('b')
            return
        if not self._independent(cond) and not self._query(cond):
            self.abort(PathStop())
        self._push_entry(_Entry('b', True, False, cond))

    def decide_value(self, sym) -> int:
        """fork over all the feasible values of a symbolic integer"""
        if self.aborted is not None:
            raise self.aborted
        self.stats.concretizations += 1
        var = sym.var
        if var is not None:
            vs = sym.values(self.dom.get(var, var.base))
            if len(vs) == 1:
                return next(iter(vs))
        while True:
            if self.pos < len(self.stack):
                e = self._pop_entry('vn')
                if e.kind == 'v':
                    return e.value
                continue  # a 'not equals' entry, look for the next value
            if time.monotonic() > self.deadline:
                self.abort(BudgetExceeded('time'))
            if var is not None and var not in self.rel:
                vs = sym.values(self.dom.get(var, var.base))
                value = min(vs)
                more = len(vs) > 1
                cond = sym.eq_cond(value)
            else:
                if not self._query():
                    self.abort(PathStop())
                value = self._last_model.eval(sym.z, model_completion=True).as_long()
                cond = sym.eq_cond(value)
                more = self._query(cond.negate())
            self._push_entry(_Entry('v', value, more, cond))
            return value

    # ------------------------------------------------------------------ models
    def model_inputs(self, extra: Tuple[Cond, ...] = ()) -> Optional[Dict[str, Any]]:
        if not self._query(*extra):
            return None
        m = self._last_model
        from . import values
        return {name: values.concretize_with_model(v, m) for name, v in self.inputs.items()}

    # ------------------------------------------------------------------ exploration
    def _advance(self) -> bool:
        st = self.stack
        while st:
            e = st[-1]
            if e.alt:
                neg = e.cond.negate()
                if e.kind == 'b':
                    st[-1] = _Entry('b', not e.value, False, neg, e.model)
                else:
                    st[-1] = _Entry('n', None, False, neg)
                return True
            st.pop()
        return False

    def explore(self, fn: Callable[[], None], on_path: Callable[[str, Any], None]):
        """run fn on all paths; on_path(kind, payload) is called at the end of each path"""
        _CURRENT[0] = self
        try:
            while True:
                self._reset_path()
                kind, payload = 'ok', None
                try:
                    fn()
                    if self.aborted is not None:
                        raise self.aborted
                except PathStop:
                    kind = 'stop'
                    self.stats.stopped += 1
                except Candidate as c:
                    kind, payload = 'candidate', c
                except EngineUnsupported as u:
                    kind, payload = 'unsupported', u
                except BudgetExceeded as b:
                    self.incomplete.append(str(b))
                    return
                except Exception as x:
                    if isinstance(self.aborted, PathStop):
                        kind = 'stop'
                        self.stats.stopped += 1
                    elif self.aborted is not None:
                        self.incomplete.append(str(self.aborted))
                        return
                    else:
                        kind, payload = 'exception', x
                self.aborted = None
                if kind != 'stop':
                    self.stats.paths += 1
                try:
                    on_path(kind, payload)
                except BudgetExceeded as b:
                    self.incomplete.append(str(b))
                    return
                if not self._advance():
                    return
                if self.stats.paths >= self.max_paths:
                    self.incomplete.append('path budget')
                    return
                if time.monotonic() > self.deadline:
                    self.incomplete.append('time budget')
                    return
        finally:
            _CURRENT[0] = None


_DECL_CACHE: Dict[Any, Cond] = {}
