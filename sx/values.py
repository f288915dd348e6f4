"""Symbolic values: SymBool, SymInt, SymStr.

Every operation is lifted to the solver; a symbolic value used where Python needs a concrete one (hashing, indexing,
a C function) is concretized by forking over all its feasible values, so nothing is lost, only split.
"""
from __future__ import annotations

from typing import Any, Iterable, List, Optional, Sequence, Tuple, Union

import z3

from .core import Cond, DomVar, EngineUnsupported, engine, in_set_term

# ---------------------------------------------------------------------------------------------- booleans


def mkbool(cond: Cond):
    q = engine().quick(cond)
    return SymBool(cond) if q is None else q


def conj_conds(conds: Sequence[Cond]) -> Cond:
    if len(conds) == 1:
        return conds[0]
    conj = {}
    for c in conds:
        if c.var is not None:
            conj[c.var] = conj[c.var] & c.codes if c.var in conj else c.codes
        elif c.conj is not None:
            for v, codes in c.conj.items():
                conj[v] = conj[v] & codes if v in conj else codes
        else:
            vs = []
            for d in conds:
                vs.extend(d.allvars())
            return Cond(term=z3.And(*[d.term for d in conds]), vars_=tuple(dict.fromkeys(vs)))
    if len(conj) == 1:
        v, codes = next(iter(conj.items()))
        return Cond(v, codes)
    return Cond(conj=conj)


def disj_conds(conds: Sequence[Cond]) -> Cond:
    if len(conds) == 1:
        return conds[0]
    if all(c.var is not None and c.var is conds[0].var for c in conds):
        return Cond(conds[0].var, frozenset().union(*[c.codes for c in conds]))
    vs = []
    for d in conds:
        vs.extend(d.allvars())
    return Cond(term=z3.Or(*[d.term for d in conds]), vars_=tuple(dict.fromkeys(vs)))


def and_all(bs: Iterable[Any]):
    """conjunction of bools and SymBools, without forking"""
    conds = []
    for b in bs:
        if isinstance(b, SymBool):
            conds.append(b.cond)
        elif not b:
            return False
    if not conds:
        return True
    return mkbool(conj_conds(conds))


def or_any(bs: Iterable[Any]):
    conds = []
    for b in bs:
        if isinstance(b, SymBool):
            conds.append(b.cond)
        elif b:
            return True
    if not conds:
        return False
    return mkbool(disj_conds(conds))


def not_(b):
    if type(b) is SymBool:
        return mkbool(b.cond.negate())
    return not b


class Sym:
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ('cond',)

    def __init__(self, cond: Cond):
        self.cond = cond

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return engine().decide(self.cond)

    def __and__(self, o):
        if isinstance(o, bool):
            return and_all((self, o))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return or_any((self, o))
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return not_(self == o)

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SymBool:
            return or_any((and_all((self, o)), and_all((not_(self), not_(o)))))
        if o is True or (type(o) is int and o == 1):
            return mkbool(self.cond)
        if o is False or (type(o) is int and o == 0):
            return not_(self)
        if type(o) is SymInt:
            return self._int() == o
        return False

    def __ne__(self, o):
        return not_(self == o)

    def _int(self):
        c = self.cond
        if c.var is not None:
            return SymInt(c.var, {k: int(k in c.codes) for k in c.var.base})
        return SymInt(term=z3.If(c.term, z3.IntVal(1), z3.IntVal(0)), vars_=c.allvars())

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __invert__(self):
        return ~int(self)


# ---------------------------------------------------------------------------------------------- integers
_CMP = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
}
_MASK = {'eq': 2, 'ne': 5, 'lt': 1, 'le': 3, 'gt': 4, 'ge': 6}
_SWAP = [((m & 1) << 2) | (m & 2) | ((m & 4) >> 2) for m in range(8)]
_CODE_CACHE = {}


class SymInt(Sym):
    """an integer: a mapped DomVar (map None is the identity) or a z3 term"""
    __slots__ = ('var', 'map', '_z', 'vars')

    def __init__(self, var: Optional[DomVar] = None, map_: Optional[dict] = None, term=None, vars_=()):
        self.var = var
        self.map = map_
        self._z = term
        self.vars = (var,) if var is not None else tuple(vars_)

    @property
    def __class__(self):
        return int

    @property
    def z(self):
        if self._z is None:
            if self.map is None:
                self._z = self.var.z
            else:
                diffs = {v - c for c, v in self.map.items()}
                if len(diffs) == 1:
                    self._z = self.var.z + next(iter(diffs))
                    return self._z
                groups = {}
                for c, v in self.map.items():
                    if v != c:
                        groups.setdefault(v, []).append(c)
                out = self.var.z if any(v == c for c, v in self.map.items()) else None
                for v, cs in sorted(groups.items()):
                    out = z3.IntVal(v) if out is None else z3.If(in_set_term(self.var.z, cs), z3.IntVal(v), out)
                self._z = out
        return self._z

    def values(self, dom) -> set:
        m = self.map
        return set(dom) if m is None else {m[c] for c in dom}

    def _codes(self, op, k):
        key = (op, k, self.var.base, None if self.map is None else id(self.map))
        r = _CODE_CACHE.get(key)
        if r is None:
            f = _CMP[op]
            if self.map is None:
                r = frozenset(c for c in self.var.base if f(c, k))
            else:
                r = frozenset(c for c, v in self.map.items() if f(v, k))
            _CODE_CACHE[key] = (r, self.map)
            return r
        return r[0]

    def eq_cond(self, k: int) -> Cond:
        if self.var is not None:
            return Cond(self.var, self._codes('eq', k))
        return Cond(term=self.z == k, vars_=self.vars)

    def pred(self, f) -> Any:
        """the truth of f(value) for a finite-domain value"""
        if self.var is None:
            return f(self.concretize())
        m = self.map
        if m is None:
            codes = frozenset(c for c in self.var.base if f(c))
        else:
            codes = frozenset(c for c, v in m.items() if f(v))
        return mkbool(Cond(self.var, codes))

    def mapped(self, f) -> Any:
        """f(value) for a finite-domain value"""
        if self.var is None:
            return f(self.concretize())
        m = self.map
        base = self.var.base
        return _mkint(self.var, {c: f(c if m is None else m[c]) for c in base})

    def _cmp(self, o, op):
        if type(o) is SymBool:
            o = o._int()
        if type(o) is SymInt:
            if self.var is not None and o.var is self.var:
                f = _CMP[op]
                a, b = self.map, o.map
                return mkbool(Cond(self.var, frozenset(
                    c for c in self.var.base if f(c if a is None else a[c], c if b is None else b[c]))))
            x, y = self.z, o.z
            ix, iy = x.get_id(), y.get_id()
            if ix == iy:
                return bool(_MASK[op] & 2)
            if ix < iy:
                rel = ((ix, iy), _MASK[op], (x, y))
            else:
                rel = ((iy, ix), _SWAP[_MASK[op]], (x, y))
            return mkbool(Cond(term=_CMP[op](x, y), vars_=tuple(dict.fromkeys(self.vars + o.vars)), rel=rel))
        if type(o) is bool:
            o = int(o)
        if type(o) is int:
            if self.var is not None:
                return mkbool(Cond(self.var, self._codes(op, o)))
            return mkbool(Cond(term=_CMP[op](self.z, o), vars_=self.vars,
                               rel=((self.z.get_id(), 'k', o), _MASK[op], self.z)))
        if isinstance(o, float):
            return _CMP[op](self.concretize(), o)
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def _arith(self, o, f, swap=False):
        if type(o) is SymBool:
            o = o._int()
        if isinstance(o, bool):
            o = int(o)
        g = (lambda a, b: f(b, a)) if swap else f
        if type(o) is SymInt:
            if self.var is not None and o.var is self.var:
                a, b = self.map, o.map
                return _mkint(self.var, {c: g(c if a is None else a[c], c if b is None else b[c])
                                         for c in self.var.base})
            return SymInt(term=g(self.z, o.z), vars_=tuple(dict.fromkeys(self.vars + o.vars)))
        if type(o) is int:
            if self.var is not None:
                return self.mapped(lambda v: g(v, o))
            return SymInt(term=g(self.z, o), vars_=self.vars)
        if isinstance(o, float):
            return g(self.concretize(), o)
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)) or (isinstance(o, str)):
            return o * self.concretize()
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def _divmod(self, o, f):
        if self.var is not None and type(o) is int and o != 0:
            return self.mapped(lambda v: f(v, o))
        return f(self.concretize(), o.concretize() if type(o) is SymInt else o)

    def __floordiv__(self, o):
        return self._divmod(o, lambda a, b: a // b)

    def __mod__(self, o):
        return self._divmod(o, lambda a, b: a % b)

    def __truediv__(self, o):
        return self._divmod(o, lambda a, b: a / b) if self.var is None else self.concretize() / o

    def __rfloordiv__(self, o):
        return o // self.concretize()

    def __rmod__(self, o):
        return o % self.concretize()

    def __rtruediv__(self, o):
        return o / self.concretize()

    def __pow__(self, o):
        return self.concretize() ** o

    def __rpow__(self, o):
        return o ** self.concretize()

    def __and__(self, o):
        return self.concretize() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.concretize() | o

    __ror__ = __or__

    def __xor__(self, o):
        return self.concretize() ^ o

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.concretize() << o

    def __rlshift__(self, o):
        return o << self.concretize()

    def __rshift__(self, o):
        return self.concretize() >> o

    def __rrshift__(self, o):
        return o >> self.concretize()

    def __invert__(self):
        return ~self.concretize()

    def __bool__(self):
        return bool(self != 0)

    def concretize(self) -> int:
        return engine().decide_value(self)

    __int__ = __index__ = __trunc__ = concretize

    def __float__(self):
        return float(self.concretize())

    def __hash__(self):
        if engine().const_hash:
            return 0
        return hash(self.concretize())

    def __str__(self):
        return str(self.concretize())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __round__(self, n=None):
        return self

    def bit_length(self):
        return self.concretize().bit_length()


def _mkint(var, m):
    dom = engine().dom.get(var, var.base)
    it = iter(dom)
    first = m[next(it)]
    if all(m[c] == first for c in it):
        return first
    return SymInt(var, m)


def int_to_str(x: SymInt):
    """decimal text of a symbolic integer: forks on the sign and the number of digits only"""
    if x.var is not None and len(x.values(engine().dom.get(x.var, x.var.base))) <= 1:
        return str(x.concretize())
    if x < 0:
        return '-' + int_to_str_nn(-x)
    return int_to_str_nn(x)


def int_to_str_nn(x):
    if type(x) is int:
        return str(x)
    n = 1
    while not (x < 10 ** n):
        n += 1
        if n > 40:
            return str(x.concretize())
    chars = []
    for i in range(n - 1, -1, -1):
        if x.var is not None:
            d = x.mapped(lambda v: 48 + (v // 10 ** i) % 10)
        else:
            d = SymInt(term=48 + (x.z / (10 ** i)) % 10, vars_=x.vars)
        chars.append(d)
    return mkstr(chars)


# ---------------------------------------------------------------------------------------------- strings
Ch = Union[str, SymInt]


def mkstr(chars: Iterable[Any]):
    """a str if all the characters are known, else a SymStr. characters: 1-length str, int code or SymInt code"""
    out = []
    sym = False
    for c in chars:
        t = type(c)
        if t is SymInt:
            if c.var is not None:
                vs = c.values(engine().dom.get(c.var, c.var.base))
                if len(vs) == 1:
                    out.append(chr(next(iter(vs))))
                    continue
            sym = True
            out.append(c)
        elif t is int:
            out.append(chr(c))
        else:
            out.append(c)
    if sym:
        return SymStr(tuple(out))
    return ''.join(out)


def chars_of(s) -> tuple:
    return s.chars if type(s) is SymStr else tuple(s)


def ch_eq(a: Ch, b: Ch):
    if type(a) is SymInt:
        return a == (b if type(b) is SymInt else ord(b))
    if type(b) is SymInt:
        return b == ord(a)
    return a == b


def ch_pred(c: Ch, f):
    """f: str (one character) -> bool"""
    if type(c) is SymInt:
        return c.pred(lambda k: f(chr(k)))
    return f(c)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    # decide the concrete mismatches first: they are free
    pairs = []
    for x, y in zip(a, b):
        if type(x) is not SymInt and type(y) is not SymInt:
            if x != y:
                return False
        elif x is not y:
            pairs.append((x, y))
    return and_all(ch_eq(x, y) for x, y in pairs)


def is_strlike(x):
    return type(x) is SymStr or isinstance(x, str)


def conc(x):
    """concretize a scalar symbolic value (forks)"""
    t = type(x)
    if t is SymStr or t is SymInt:
        return x.concretize()
    if t is SymBool:
        return bool(x)
    return x


_WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


class SymStr(Sym):
    __slots__ = ('chars',)

    def __init__(self, chars: tuple):
        self.chars = chars

    @property
    def __class__(self):
        return str

    # -- basics
    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.chars[slice(conc(i.start), conc(i.stop), conc(i.step))])
        return mkstr((self.chars[conc(i)],))

    def __add__(self, o):
        if is_strlike(o):
            return mkstr(self.chars + chars_of(o))
        return NotImplemented

    def __radd__(self, o):
        if is_strlike(o):
            return mkstr(chars_of(o) + self.chars)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.chars * conc(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        return self.concretize() % args

    def __eq__(self, o):
        if type(o) is SymStr or isinstance(o, str):
            return seq_eq(self.chars, chars_of(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _order(self, o, strict_less: bool, or_equal: bool):
        a, b = self.chars, chars_of(o)
        for x, y in zip(a, b):
            if ch_eq(x, y):
                continue
            xs = x if type(x) is SymInt else ord(x)
            ys = y if type(y) is SymInt else ord(y)
            return (xs < ys) if strict_less else (xs > ys)
        if len(a) == len(b):
            return or_equal
        return (len(a) < len(b)) == strict_less

    def __lt__(self, o):
        return self._order(o, True, False) if is_strlike(o) else NotImplemented

    def __le__(self, o):
        return self._order(o, True, True) if is_strlike(o) else NotImplemented

    def __gt__(self, o):
        return self._order(o, False, False) if is_strlike(o) else NotImplemented

    def __ge__(self, o):
        return self._order(o, False, True) if is_strlike(o) else NotImplemented

    def concretize(self) -> str:
        return ''.join(chr(c.concretize()) if type(c) is SymInt else c for c in self.chars)

    def __hash__(self):
        return hash(self.concretize())

    def __str__(self):
        return self.concretize()

    def __repr__(self):
        return repr(self.concretize())

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        oc = chars_of(o)
        n, m = len(self.chars), len(oc)
        return or_any(seq_eq(self.chars[i:i + m], oc) for i in range(n - m + 1)) if m <= n else False

    # -- predicates
    def _all(self, f):
        if not self.chars:
            return False
        return and_all(ch_pred(c, f) for c in self.chars)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return self._all(str.isascii)

    def isprintable(self):
        return self._all(str.isprintable)

    def isidentifier(self):
        return and_all([ch_pred(self.chars[0], str.isidentifier)] +
                       [ch_pred(c, lambda x: ('a' + x).isidentifier()) for c in self.chars[1:]])

    def islower(self):
        return self.concretize().islower()

    def isupper(self):
        return self.concretize().isupper()

    def istitle(self):
        return self.concretize().istitle()

    # -- maps
    def _map(self, f):
        out = []
        for c in self.chars:
            if type(c) is SymInt:
                if c.var is not None and c.pred(lambda k: len(f(chr(k))) == 1):
                    out.append(c.mapped(lambda k: ord((f(chr(k)) or ' ')[0])))
                else:
                    out.extend(f(chr(c.concretize())))
            else:
                out.extend(f(c))
        return mkstr(out)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def casefold(self):
        return self._map(str.casefold)

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        return mkstr(chars_of(self[:1].upper()) + chars_of(self[1:].lower()))

    def title(self):
        return self.concretize().title()

    def translate(self, table):
        return self._map(lambda c: c.translate(table))

    maketrans = staticmethod(str.maketrans)

    # -- searching
    def _range(self, start, end):
        n = len(self.chars)
        return range(n)[slice(conc(start), conc(end))] if True else None

    def _slice(self, start, end):
        s, e, _ = slice(conc(start), conc(end)).indices(len(self.chars))
        return s, e

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_any(self.startswith(x, start, end) for x in p)
        if not is_strlike(p):
            raise TypeError('startswith first arg must be str or a tuple of str')
        s, e = self._slice(start, end)
        pc = chars_of(p)
        if s + len(pc) > e:
            return False
        return seq_eq(self.chars[s:s + len(pc)], pc)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return or_any(self.endswith(x, start, end) for x in p)
        if not is_strlike(p):
            raise TypeError('endswith first arg must be str or a tuple of str')
        s, e = self._slice(start, end)
        pc = chars_of(p)
        if e - s < len(pc):
            return False
        return seq_eq(self.chars[e - len(pc):e], pc)

    def find(self, sub, start=None, end=None):
        s, e = self._slice(start, end)
        pc = chars_of(sub)
        for i in range(s, e - len(pc) + 1):
            if seq_eq(self.chars[i:i + len(pc)], pc):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, e = self._slice(start, end)
        pc = chars_of(sub)
        for i in range(e - len(pc), s - 1, -1):
            if seq_eq(self.chars[i:i + len(pc)], pc):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        s, e = self._slice(start, end)
        pc = chars_of(sub)
        if not pc:
            return e - s + 1
        n, i = 0, s
        while i + len(pc) <= e:
            if seq_eq(self.chars[i:i + len(pc)], pc):
                n += 1
                i += len(pc)
            else:
                i += 1
        return n

    # -- cutting
    def _stripper(self, chars):
        if chars is None:
            return str.isspace
        chars = conc(chars)
        return lambda c: c in chars

    def lstrip(self, chars=None):
        f = self._stripper(chars)
        i = 0
        while i < len(self.chars) and ch_pred(self.chars[i], f):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        f = self._stripper(chars)
        i = len(self.chars)
        while i > 0 and ch_pred(self.chars[i - 1], f):
            i -= 1
        return mkstr(self.chars[:i])

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.chars) - len(p)] if len(p) and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        if sep is None:
            return self._split_ws(maxsplit)
        pc = chars_of(sep)
        if not pc:
            raise ValueError('empty separator')
        out, start, i = [], 0, 0
        cs = self.chars
        while i + len(pc) <= len(cs) and (maxsplit < 0 or len(out) < maxsplit):
            if seq_eq(cs[i:i + len(pc)], pc):
                out.append(mkstr(cs[start:i]))
                i += len(pc)
                start = i
            else:
                i += 1
        out.append(mkstr(cs[start:]))
        return out

    def _split_ws(self, maxsplit):
        out, i, cs = [], 0, self.chars
        n = len(cs)
        while True:
            while i < n and ch_pred(cs[i], str.isspace):
                i += 1
            if i >= n:
                return out
            if 0 <= maxsplit <= len(out):
                out.append(mkstr(cs[i:]).rstrip())
                return out
            j = i
            while j < n and not ch_pred(cs[j], str.isspace):
                j += 1
            out.append(mkstr(cs[i:j]))
            i = j

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = conc(maxsplit)
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(maxsplit)
            return self.concretize().rsplit(None, maxsplit)
        if maxsplit < 0:
            return self.split(sep) if len(sep) == 1 else self.concretize().rsplit(conc(sep))
        pc = chars_of(sep)
        out, cs = [], self.chars
        end = i = len(cs)
        while i - len(pc) >= 0 and len(out) < maxsplit:
            if seq_eq(cs[i - len(pc):i], pc):
                out.append(mkstr(cs[i:end]))
                i -= len(pc)
                end = i
            else:
                i -= 1
        out.append(mkstr(cs[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        out, start, i, cs = [], 0, 0, self.chars
        n = len(cs)
        while i < n:
            if ch_pred(cs[i], lambda c: len(('a' + c + 'b').splitlines()) == 2):
                j = i + 1
                if j < n and ch_eq(cs[i], '\r') and ch_eq(cs[j], '\n'):
                    j += 1
                out.append(mkstr(cs[start:j] if keepends else cs[start:i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(mkstr(cs[start:]))
        return out

    # -- building
    def replace(self, old, new, count=-1):
        count = conc(count)
        if len(old) == 0:
            return self.concretize().replace('', conc(new), count)
        return join(new, self.split(old, count))

    def join(self, it):
        return join(self, it)

    def format(self, *a, **k):
        return self.concretize().format(*[deep_conc(x) for x in a], **{n: deep_conc(x) for n, x in k.items()})

    def ljust(self, w, fill=' '):
        w = conc(w)
        return self + fill * max(0, w - len(self.chars))

    def rjust(self, w, fill=' '):
        w = conc(w)
        return (fill * max(0, w - len(self.chars))) + self

    def zfill(self, w):
        return self.concretize().zfill(conc(w))

    def center(self, w, fill=' '):
        return self.concretize().center(conc(w), fill)

    def expandtabs(self, n=8):
        return self.concretize().expandtabs(n)

    def encode(self, *a, **k):
        return self.concretize().encode(*a, **k)


def join(sep, it):
    out = []
    sc = chars_of(sep)
    for i, x in enumerate(it):
        if not is_strlike(x):
            raise TypeError(f'sequence item {i}: expected str instance, {type(x).__name__} found')
        if i:
            out.extend(sc)
        out.extend(chars_of(x))
    return mkstr(out)


def str_to_int(s: SymStr, base=10):
    """int(text)"""
    if base != 10:
        return int(s.concretize(), conc(base))
    s = s.strip()
    if type(s) is str:
        return int(s)
    cs = list(s.chars)
    neg = False
    if ch_pred(cs[0], lambda c: c in '+-'):
        neg = bool(ch_eq(cs[0], '-'))
        cs = cs[1:]
    if not cs:
        raise ValueError("invalid literal for int() with base 10: ''")
    total = None
    for i, c in enumerate(cs):
        if not ch_pred(c, str.isdecimal):
            return int(s.concretize())  # underscores, errors
        if type(c) is SymInt:
            d = c.mapped(lambda k: int(chr(k)) if chr(k).isdecimal() else 0) if c.var is not None else c - 48
        else:
            d = int(c)
        total = d if total is None else total * 10 + d
    return -total if neg else total


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymInt or t is SymBool


def has_sym(x, depth=3):
    t = type(x)
    if t is SymStr or t is SymInt or t is SymBool:
        return True
    if depth <= 0:
        return False
    if t is list or t is tuple or t is set or t is frozenset:
        return any(has_sym(i, depth - 1) for i in x)
    if t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def deep_conc(x, depth=4):
    """x with its symbolic parts concretized (copies containers only if they hold symbolic values)"""
    t = type(x)
    if t is SymStr or t is SymInt or t is SymBool:
        return conc(x)
    if depth > 0 and has_sym(x, depth):
        if t is list or t is tuple or t is set or t is frozenset:
            return t([deep_conc(i, depth - 1) for i in x])
        if t is dict:
            return {deep_conc(k, depth - 1): deep_conc(v, depth - 1) for k, v in x.items()}
    return x


def concretize_with_model(v, m, depth=8):
    """the value of v in the model m (no forking)"""
    t = type(v)
    if t is SymInt:
        return m.eval(v.z, model_completion=True).as_long()
    if t is SymStr:
        return ''.join(chr(m.eval(c.z, model_completion=True).as_long()) if type(c) is SymInt else c
                       for c in v.chars)
    if t is SymBool:
        return z3.is_true(m.eval(v.cond.term, model_completion=True))
    if depth > 0:
        if t is list or t is tuple:
            return t([concretize_with_model(i, m, depth - 1) for i in v])
        if t is dict:
            return {concretize_with_model(k, m, depth - 1): concretize_with_model(x, m, depth - 1)
                    for k, x in v.items()}
    return v


def _copy_self(self, memo=None):
    return self


for _c in (SymBool, SymInt, SymStr):
    _c.__copy__ = _copy_self
    _c.__deepcopy__ = _copy_self
