"""Loads pkm and the harnesses from their current source with an AST rewrite that lets symbolic values flow.

The rewrite is semantics preserving: calls, `in`, f-strings and subscripts go through helpers which behave exactly like
the original construct when no symbolic value is involved.
"""
from __future__ import annotations

import ast
import builtins
import copy
import functools
import importlib
import importlib.machinery
import re
import sys
import types
from importlib.machinery import PathFinder, SourceFileLoader

from . import regex
from .values import (ch_pred, SymBool, SymInt, SymStr, chars_of, conc, deep_conc, has_sym, int_to_str, is_sym, join, mkstr,
                     or_any, str_to_int)

PREFIXES = ['pkm', 'pkm_cli', 'conda_pkm_repo', 'download_torch_pkm_repo', 'props']
MODULES = set()

_FunctionType = types.FunctionType
_MethodType = types.MethodType
_Builtin = types.BuiltinFunctionType
_MethodDescr = type(str.lower)
_Pattern = re.Pattern
_MISSING = object()

# ---------------------------------------------------------------------------------------------- runtime helpers


def sx_str(x):
    t = type(x)
    if t is str or t is SymStr:
        return x
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return str(bool(x))
    f = getattr(t, '__str__', None)
    if type(f) is _FunctionType:
        return f(x)
    if f is object.__str__:
        return sx_repr(x)
    return str(x)


def _special(c):
    return c in '\'"\\' or not c.isprintable()


def _repr_symstr(s):
    """the repr of a text: forks on whether each unknown character needs an escape or decides about the quotes"""
    chars = []
    for c in s.chars:
        if type(c) is SymInt and bool(ch_pred(c, _special)):
            c = chr(c.concretize())
        chars.append(c)
    known = [c for c in chars if type(c) is str]
    q = '"' if "'" in known and '"' not in known else "'"
    out = [q]
    for c in chars:
        if type(c) is not str:
            out.append(c)
        elif c == q:
            out += ['\\', c]
        elif c in '\'"':
            out.append(c)
        else:
            out += list(repr(c)[1:-1])
    out.append(q)
    return mkstr(out)


_EVAL_CONSTS = []


def sx_const(i):
    return _EVAL_CONSTS[i]


def sx_evalsrc(x):
    """code for eval: the unknown characters may only be in the string literals of the expression"""
    if type(x) is not SymStr:
        return x
    sym = {}
    out = []
    for c in x.chars:
        if type(c) is SymInt:
            out.append(chr(0xE000 + len(sym)))
            sym[out[-1]] = c
        else:
            out.append(c)
    text = ''.join(out)
    _EVAL_CONSTS.clear()

    class Consts(ast.NodeTransformer):
        def visit_Constant(self, n):
            if isinstance(n.value, str) and any(c in sym for c in n.value):
                _EVAL_CONSTS.append(mkstr([sym.get(c, c) for c in n.value]))
                return ast.Call(ast.Name('sx_const__', ast.Load()), [ast.Constant(len(_EVAL_CONSTS) - 1)], [])
            return n

    try:
        tree = ast.parse(text, mode='eval')
        tree = Consts().visit(tree)
    except SyntaxError:
        return conc(x)
    rest = ast.unparse(tree)
    if any(c in rest for c in sym) or any(bool(ch_pred(c, _special)) for c in sym.values()):
        return conc(x)
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, '<eval>', 'eval')


def sx_repr(x):
    t = type(x)
    if t is SymStr:
        return _repr_symstr(x)
    f = getattr(t, '__repr__', None)
    fields = type(f) is _FunctionType and getattr(t, '__dataclass_fields__', None)
    if fields and getattr(getattr(f, '__wrapped__', None), '__code__', f.__code__).co_filename == '<string>':
        parts = []
        for name, fd in fields.items():
            if fd.repr and fd._field_type.name == '_FIELD':
                parts += [', ' if parts else '', name, '=', sx_repr(getattr(x, name))]
        return join('', [t.__qualname__, '(', *parts, ')'])
    if type(f) is _FunctionType and t is not SymStr and t is not SymInt and t is not SymBool:
        return f(x)
    return repr(x)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 115:
            v = sx_str(v)
        elif conv == 114:
            v = sx_repr(v)
        elif conv == 97:
            v = ascii(conc(v))
        if spec:
            out.append(format(conc(v), conc(spec)))
        elif type(v) is str or type(v) is SymStr:
            out.append(v)
        elif is_sym(v) or type(v).__format__ is object.__format__:
            out.append(sx_str(v))
        else:
            out.append(format(v, ''))
    if any(type(x) is SymStr for x in out):
        return join('', out)
    return ''.join(out)


_HASHED = (set, frozenset, dict)


def sx_in(a, c):
    tc = type(c)
    if tc is SymStr:
        return c.contains(a)
    ta = type(a)
    if ta is SymStr or ta is SymInt or ta is SymBool:
        if isinstance(c, str):
            return SymStr(tuple(c)).contains(a)
        if tc in (list, tuple, set, frozenset, dict) or tc is _DK:
            return or_any(x is a or a == x for x in c)
        if isinstance(c, range):
            if c.step == 1:
                return bool(a >= c.start) and bool(a < c.stop)
            return conc(a) in c
    return a in c


_DK = type({}.keys())


def sx_notin(a, c):
    r = sx_in(a, c)
    if type(r) is SymBool:
        from .values import not_
        return not_(r)
    return not r


def _dict_find(d, k):
    for x in d:
        if x is k or x == k:
            return x
    return _MISSING


def sx_getitem(o, k):
    tk = type(k)
    if (tk is SymStr or tk is SymInt) and isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
        x = _dict_find(o, k)
        if x is _MISSING:
            if hasattr(type(o), '__missing__'):
                return o[conc(k)]
            raise KeyError(k)
        return o[x]
    return o[k]


def _type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        return str if t is SymStr else int if t is SymInt else bool if t is SymBool else t
    return type(*a, **k)


def _int(*a, **k):
    if a:
        t = type(a[0])
        if t is SymStr:
            return str_to_int(a[0], *a[1:], **k)
        if t is SymInt:
            return a[0]
        if t is SymBool:
            return a[0]._int()
    return int(*a, **k)


def _bool(*a):
    if a:
        t = type(a[0])
        if t is SymBool:
            return a[0]
        if t is SymInt:
            return a[0] != 0
    return bool(*a)


def _strcls(*a, **k):
    if len(a) == 1 and not k:
        return sx_str(a[0])
    return str(*a, **k)


def _ord(c):
    if type(c) is SymStr and len(c) == 1:
        return c.chars[0]
    return ord(c)


def _chr(c):
    if type(c) is SymInt:
        return mkstr((c,))
    return chr(c)


def _map(f, *its):
    return (sx_call(f, *a) for a in zip(*its))


def _filter(f, it):
    if f is None:
        return filter(f, it)
    return (x for x in it if sx_call(f, x))


def _wrapkey(k):
    key = k.get('key')
    if key is not None and type(key) is not _FunctionType:
        k['key'] = lambda x: sx_call(key, x)
    return k


def _sorted(*a, **k):
    return sorted(*a, **_wrapkey(k))


def _min(*a, **k):
    return min(*a, **_wrapkey(k))


def _max(*a, **k):
    return max(*a, **_wrapkey(k))


def _getattr(o, n, *d):
    return getattr(o, conc(n), *d)


def _setattr(o, n, v):
    return setattr(o, conc(n), v)


def _hasattr(o, n):
    return hasattr(o, conc(n))


def _isinstance(o, c):
    return isinstance(o, c)


def _re1(name):
    real = getattr(re, name)

    def call(pattern, *a, **k):
        flags = k.pop('flags', 0)
        args = list(a)
        # positional flags follow the string for match-like functions; rarely used with symbolic input
        if not isinstance(pattern, _Pattern):
            npos = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
            if len(args) > npos:
                flags = args[npos]
                args = args[:npos]
            pattern = re.compile(conc(pattern), flags)
        return _pattern_call(pattern, name, tuple(args), k)

    return call


def _pattern_call(p, name, a, k):
    if any(type(x) is SymStr for x in a) and isinstance(p.pattern, str):
        f = regex.PATTERN_METHODS.get(name)
        if f is not None:
            try:
                return f(p, *a, **k)
            except regex.Unsupported:
                pass
        return getattr(p, name)(*[conc(x) for x in a], **k)
    if name in ('sub', 'subn'):
        repl, s = a[0], a[1]
        if callable(repl):
            syms = []

            def wrap(m):
                r = repl(m)
                return conc(r)
            return getattr(p, name)(wrap, *a[1:], **k)
    return getattr(p, name)(*a, **k)


_TABLE = {
    type: _type, int: _int, bool: _bool, str: _strcls, repr: sx_repr, ord: _ord, chr: _chr, map: _map,
    filter: _filter, sorted: _sorted, min: _min, max: _max, getattr: _getattr, setattr: _setattr, hasattr: _hasattr,
}
_FTABLE = {getattr(re, n): _re1(n) for n in ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall',
                                              'finditer')}

_DIRECT_BUILTINS = {
    isinstance, issubclass, len, hash, abs, all, any, sum, callable, id, iter, next, zip, enumerate, reversed, list,
    tuple, dict, set, frozenset, object, range, slice, property, staticmethod, classmethod, super, divmod, round,
    delattr, locals, globals, vars, dir,
}
_DIRECT_MODULES = {'functools', 'itertools', 'collections', 'contextlib', 'typing', 'dataclasses', 'abc', 'operator',
                   'enum', 'copy', 'weakref', 'types', 'collections.abc', 'threading', 'queue', 'warnings', 'inspect',
                   'unittest.mock', '_thread', '_collections', '_functools', 'copyreg', '_operator', '_abc',
                   '_collections_abc', 'concurrent.futures', 'concurrent.futures.thread',
                   'concurrent.futures._base'}
_CONTAINER_TYPES = (list, dict, set, frozenset, tuple, types.GeneratorType)
_STR_NATURAL = {'__init__'}


def _lift_str(s, name, a, k):
    if name == 'join':
        items = list(a[0])
        if any(type(x) is SymStr for x in items):
            return join(s, items)
        return s.join(items)
    if has_sym(a, 3) or (k and has_sym(k, 3)):
        m = getattr(SymStr, name, None)
        if m is not None:
            return m(s if type(s) is SymStr else SymStr(tuple(s)), *a, **k)
        return getattr(conc(s), name)(*[deep_conc(x) for x in a], **k)
    return getattr(s, name)(*a, **k)


# functions of the standard library that take symbolic text: an instrumented copy of their own source is executed
_SHIM_MODULES = {'urllib.parse': ['urlsplit', 'urlparse', 'urlunsplit', 'urlunparse', 'urljoin', 'quote', 'unquote',
                                  'urlencode', 'quote_plus', 'unquote_plus', 'urldefrag']}
_SHIMS = {}


def _load_shims():
    for name, functions in _SHIM_MODULES.items():
        real = importlib.import_module(name)
        shim = types.ModuleType('sxstd.' + name)
        shim.__file__ = real.__file__
        shim.__package__ = real.__package__
        shim.__dict__.update(RUNTIME)
        MODULES.add(shim.__name__)
        with open(real.__file__, 'rb') as f:
            src = f.read()
        tree = _uncache(ast.parse(src, real.__file__))
        exec(_compile(tree, real.__file__), shim.__dict__)
        for fn in functions:
            _SHIMS[getattr(real, fn)] = getattr(shim, fn)


def _uncache(tree):
    """without result caches: symbolic values of one path must not be seen by another"""
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            n.decorator_list = [d for d in n.decorator_list if 'cache' not in ast.unparse(d)]
    return tree


_LruWrapper = type(functools.lru_cache(lambda: 0))


def sx_call(f, /, *a, **k):
    t = type(f)
    if (t is _FunctionType or t is _LruWrapper) and f in _SHIMS and (has_sym(a, 3) or (k and has_sym(k, 3))):
        return _SHIMS[f](*a, **k)
    if t is _LruWrapper and (has_sym(a, 3) or (k and has_sym(k, 3))):
        return sx_call(f.__wrapped__, *a, **k)
    if t is _MethodType:
        fn = f.__func__
        if type(fn) is _FunctionType and 'sx_call__' in fn.__globals__:
            return f(*a, **k)
        return _uninstrumented(f, getattr(fn, '__module__', None), a, k)
    if t is _FunctionType:
        if 'sx_call__' in f.__globals__:
            return f(*a, **k)
        g = _FTABLE.get(f)
        if g is not None:
            return g(*a, **k)
        return _uninstrumented(f, f.__module__, a, k)
    if t is _Builtin or issubclass(t, _Builtin):
        s = f.__self__
        if s is not None and type(s) is not types.ModuleType:
            ts = type(s)
            if ts is str:
                return _lift_str(s, f.__name__, a, k)
            if ts is dict or (isinstance(s, dict) and not is_sym(s)):
                if a and is_sym(a[0]) and f.__name__ in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
                    x = _dict_find(s, a[0])
                    return f(a[0] if x is _MISSING else x, *a[1:], **k)
                return f(*a, **k)
            if ts is list and f.__name__ == 'sort':
                return f(*a, **_wrapkey(k))
            if (ts is list or ts is tuple) and f.__name__ in ('index', 'remove') and a and is_sym(a[0]):
                for i in range(*slice(*a[1:]).indices(len(s)) if len(a) > 2 else (a[1] if len(a) > 1 else 0, len(s))):
                    if s[i] is a[0] or s[i] == a[0]:
                        if f.__name__ == 'index':
                            return i
                        del s[i]
                        return None
                raise ValueError('not in list')
            if isinstance(s, _CONTAINER_TYPES) or isinstance(s, type):
                if s is str and f.__name__ == 'join':
                    return join(*a)
                if isinstance(s, type) and s.__module__ not in MODULES and has_sym(a, 3):
                    if s in (object,) or f.__name__ in ('__new__', '__subclasshook__', '__init_subclass__',
                                                        'fromkeys'):
                        return f(*a, **k)
                    return f(*[deep_conc(x) for x in a], **{n: deep_conc(x) for n, x in k.items()})
                return f(*a, **k)
            if ts is _Pattern:
                return _pattern_call(s, f.__name__, a, k)
            if has_sym(a, 3) and ts.__module__ not in _DIRECT_MODULES:
                return f(*[deep_conc(x) for x in a], **{n: deep_conc(x) for n, x in k.items()})
            return f(*a, **k)
        try:
            g = _TABLE.get(f)
        except TypeError:
            g = None
        if g is not None:
            return g(*a, **k)
        if f in _DIRECT_BUILTINS or getattr(f, '__module__', None) in _DIRECT_MODULES:
            return f(*a, **k)
        return _uninstrumented(f, getattr(f, '__module__', None), a, k)
    if t is _MethodDescr:
        if f.__objclass__ is str and a and (type(a[0]) is SymStr or type(a[0]) is str):
            return _lift_str(a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    if isinstance(f, type):
        try:
            g = _TABLE.get(f)
        except TypeError:
            g = None
        if g is not None:
            return g(*a, **k)
        if f in _DIRECT_BUILTINS or f.__module__ in MODULES or f.__module__ in _DIRECT_MODULES \
                or issubclass(f, BaseException):
            return f(*a, **k)
        if (has_sym(a, 3) or (k and has_sym(k, 3))) and f.__init__ is not object.__init__ \
                or (f.__module__ == 'builtins' and has_sym(a, 3)):
            if any(b.__module__ in MODULES for b in f.__mro__):
                return f(*a, **k)
            return f(*[deep_conc(x) for x in a], **{n: deep_conc(x) for n, x in k.items()})
        return f(*a, **k)
    return f(*a, **k)


def _uninstrumented(f, module, a, k):
    if module in MODULES or module in _DIRECT_MODULES or (module or '').startswith('sx'):
        return f(*a, **k)
    if has_sym(a, 3) or (k and has_sym(k, 3)):
        return f(*[deep_conc(x) for x in a], **{n: deep_conc(x) for n, x in k.items()})
    return f(*a, **k)


def sx_concret_ret(fn):
    @functools.wraps(fn)
    def wrapper(self):
        return conc(fn(self))

    return wrapper


RUNTIME = {'sx_conc__': conc, 'sx_evalsrc__': sx_evalsrc, 'sx_const__': sx_const, 'sx_call__': sx_call, 'sx_in__': sx_in, 'sx_notin__': sx_notin, 'sx_fstr__': sx_fstr,
           'sx_getitem__': sx_getitem, 'sx_concret_ret__': sx_concret_ret}

# ---------------------------------------------------------------------------------------------- the rewrite

_LEAVE = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__', 'TypeVar', 'cast', 'NewType'}


class Rewriter(ast.NodeTransformer):
    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def _func(self, n):
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [x and self.visit(x) for x in n.args.kw_defaults]
        n.body = [self.visit(x) for x in n.body]
        return n

    def visit_FunctionDef(self, n):
        self._func(n)
        if n.name in ('__bool__', '__hash__', '__len__', '__index__', '__int__'):
            n.decorator_list.append(ast.copy_location(ast.Name('sx_concret_ret__', ast.Load()), n))
        return n

    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) for x in n.body]
        return n

    def visit_Lambda(self, n):
        n.args.defaults = [self.visit(x) for x in n.args.defaults]
        n.args.kw_defaults = [x and self.visit(x) for x in n.args.kw_defaults]
        n.body = self.visit(n.body)
        return n

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in _LEAVE:
            n.args = [self.visit(x) for x in n.args]
            n.keywords = [self.visit(x) for x in n.keywords]
            if n.func.id in ('eval', 'exec') and n.args:
                name = 'sx_evalsrc__' if n.func.id == 'eval' and len(n.args) == 1 else 'sx_conc__'
                n.args[0] = ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [n.args[0]], []), n)
            return n
        self.generic_visit(n)
        return ast.copy_location(
            ast.Call(ast.Name('sx_call__', ast.Load()), [n.func] + n.args, n.keywords), n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            name = 'sx_in__' if isinstance(n.ops[0], ast.In) else 'sx_notin__'
            return ast.copy_location(
                ast.Call(ast.Name(name, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name('sx_fstr__', ast.Load()), parts, []), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant)) \
                and not (isinstance(n.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred))
                                                                for e in n.slice.elts)):
            return ast.copy_location(ast.Call(ast.Name('sx_getitem__', ast.Load()), [n.value, n.slice], []), n)
        return n


def transform(source, path):
    return _compile(ast.parse(source, path), path)


def _compile(tree, path):
    tree = Rewriter().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class SxLoader(SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return transform(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update(RUNTIME)
        MODULES.add(module.__name__)
        super().exec_module(module)


class SxFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split('.')[0] not in PREFIXES:
            return None
        spec = PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, SourceFileLoader):
            return spec
        spec.loader = SxLoader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if SxFinder not in sys.meta_path:
        sys.meta_path.insert(0, SxFinder)
    if not _SHIMS:
        _load_shims()
