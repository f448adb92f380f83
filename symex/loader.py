"""Loads the project's current source for symbolic execution.

Each module is parsed from the working tree, rewritten so that arithmetic on
literals, conversions and containers stay symbolic, and executed with shims in
place of numpy / scipy / scikit-learn.
"""
import ast
import builtins
import copy as _copy
import importlib
import math as _math
import os
import re as _re
import sys
import types

import numpy as RN

from . import core, nparr, npfun
from .core import (Sym, SymBool, SymInt, SymReal, SymStr, NInt, Unsupported,
                   mkbool, zbool, tosymreal, is_special, frac)
from .nparr import SymArray, RecArray, RecView, norm, scalar_out

REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------------------
# run-time helpers used by rewritten code
# ---------------------------------------------------------------------------
def sx_f(v):
    if core.eng_fp():
        from fractions import Fraction
        return SymReal(Fraction(v))       # the double itself
    return SymReal(frac(v))


def sx_div(a, b):
    ta, tb = type(a), type(b)
    if isinstance(a, (int, NInt, float)) and isinstance(b, (int, NInt, float)):
        np_ = isinstance(a, NInt) or isinstance(b, NInt)
        if not np_ and b == 0:
            return a / b         # ZeroDivisionError
        r = SymReal._div(tosymreal(norm(a)), tosymreal(norm(b)))
        return r
    if isinstance(a, (Sym, int, float)) and isinstance(b, Sym) or \
            isinstance(a, Sym) and isinstance(b, (int, float)):
        if isinstance(a, (SymStr,)) or isinstance(b, SymStr):
            raise TypeError('unsupported operand type(s) for /')
        return SymReal._div(tosymreal(norm(a)), tosymreal(norm(b)))
    return a / b


def sx_idiv(a, b):
    if isinstance(a, SymArray):
        a /= b
        return a
    return sx_div(a, b)


# how scripts render symbolic values (textshim.run_script)
TEXT = None


def sx_int(x=0, *base):
    if base:
        return int(x, *base)
    if TEXT is not None and isinstance(x, str):
        from . import textshim
        return textshim.to_int(x)
    if isinstance(x, SymArray):
        x = x._one()
    if isinstance(x, SymReal):
        return x.trunc()
    if isinstance(x, SymBool):
        return core.mkint(core.zint(x))
    if isinstance(x, SymInt):
        return SymInt(x.e)
    if isinstance(x, SymStr):
        raise ValueError('invalid literal for int()')
    if isinstance(x, NInt):
        return int(x)
    return int(x)


def sx_float(x=0):
    if TEXT is not None and isinstance(x, str):
        from . import textshim
        return textshim.to_float(x)
    if isinstance(x, SymArray):
        x = x._one()
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return tosymreal(x)
    if isinstance(x, SymStr):
        raise ValueError('could not convert string to float')
    r = float(x)
    return r if is_special(r) else SymReal(
        frac(x) if isinstance(x, int) else frac(r))


def sx_bool(x=False):
    if isinstance(x, SymBool):
        return SymBool(x.e)
    return bool(x)


def sx_str(*a, **k):
    if TEXT is not None and a:
        r = TEXT(a[0])
        if r is not None:
            return r
    if a and isinstance(a[0], SymStr):
        return a[0]
    if a and isinstance(a[0], SymReal) and a[0].const:
        return str(float(a[0].v))
    if a and isinstance(a[0], Sym):
        raise Unsupported('str() of a symbolic value')
    return str(*a, **k)


def sx_npcast(f, *args, **kw):
    if isinstance(f, type) and issubclass(f, RN.generic):
        x = args[0] if args else 0
        dt = RN.dtype(f)
        if isinstance(x, (Sym, NInt)) or nparr.is_scalar(x):
            return scalar_out(nparr.cast_elem(norm(x), dt), dt)
        return nparr.asarr(x).astype(dt)
    return f(*args, **kw)


_INTS = (RN.integer, RN.signedinteger, RN.int64, RN.int_, RN.intp,
         RN.number, RN.generic)
import numbers as _numbers  # noqa: E402


def _isinst1(x, c):
    if c is SymArray or c is RN.ndarray:
        return isinstance(x, (SymArray, RecArray, RecView, RN.ndarray))
    t = type(x)
    if t is NInt:
        if c is int or c is bool:
            return False
        if c in _INTS or c in (_numbers.Integral, _numbers.Real,
                               _numbers.Number, _numbers.Complex):
            return True
        return c is object
    if t is SymInt:
        if c is int:
            return not x.np
        if c in _INTS:
            return bool(x.np)
        return c in (_numbers.Integral, _numbers.Real, _numbers.Number,
                     _numbers.Complex, object)
    if t is SymReal:
        return c in (float, RN.floating, RN.float64, RN.float_, RN.number,
                     RN.inexact, RN.generic, _numbers.Real, _numbers.Number,
                     _numbers.Complex, object)
    if t is SymBool:
        if x.np:
            return c in (RN.bool_, RN.generic, object)
        return c in (bool, int, object, _numbers.Integral, _numbers.Number,
                     _numbers.Real)
    if t is SymStr:
        return c in (str, RN.str_, RN.generic, RN.character, object)
    if c is dict and isinstance(x, dict):
        return True
    return isinstance(x, c)


def sx_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(sx_isinstance(x, c) for c in cls)
    if isinstance(cls, types.UnionType):
        return any(sx_isinstance(x, c) for c in cls.__args__)
    if isinstance(x, (Sym, NInt, SymArray, RecArray, RecView)) or \
            cls in (SymArray, RN.ndarray):
        return _isinst1(x, cls)
    if hasattr(cls, '_sx_isinstance'):
        return cls._sx_isinstance(x)
    return isinstance(x, cls)


# -- dictionaries and sets with symbolic keys --------------------------------
def _symkey(k):
    if isinstance(k, Sym):
        return not (isinstance(k, SymReal) and k.const)
    if isinstance(k, tuple):
        return any(_symkey(i) for i in k)
    return False


def _keq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or \
                len(a) != len(b):
            return False
        return all(_keq(i, j) for i, j in zip(a, b))
    r = a == b
    return bool(r)


_MISS = object()


class SymDict(dict):
    """dict whose lookups compare symbolic keys by forking"""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sk = False
        self.update(*a, **k)

    def _find(self, key):
        if not self._sk and not _symkey(key):
            return key
        if dict.__len__(self) == 0:
            return _MISS
        hash(key)
        for k in dict.keys(self):
            if k is key:
                return k
        for k in list(dict.keys(self)):
            if not (_symkey(k) or _symkey(key)):
                if k == key:
                    return k
                continue
            if _keq(k, key):
                return k
        return _MISS

    def __getitem__(self, key):
        k = self._find(key)
        if k is _MISS:
            return self.__missing__(key)
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.__missing__(key)

    def __missing__(self, key):
        raise KeyError(key)

    def get(self, key, default=None):
        k = self._find(key)
        if k is _MISS:
            return default
        return dict.get(self, k, default)

    def __contains__(self, key):
        k = self._find(key)
        return k is not _MISS and dict.__contains__(self, k)

    def __setitem__(self, key, v):
        if _symkey(key):
            self._sk = True
        k = self._find(key)
        dict.__setitem__(self, key if k is _MISS else k, v)

    def __delitem__(self, key):
        k = self._find(key)
        if k is _MISS:
            raise KeyError(key)
        dict.__delitem__(self, k)

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    def pop(self, key, *d):
        k = self._find(key)
        if k is _MISS:
            if d:
                return d[0]
            raise KeyError(key)
        return dict.pop(self, k, *d)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, 'keys'):
                for i in o.keys():
                    self[i] = o[i]
            else:
                for i, v in o:
                    self[i] = v
        for i, v in k.items():
            self[i] = v

    def copy(self):
        r = type(self)()
        r._copy_from(self)
        return r

    def _copy_from(self, o):
        dict.update(self, o)
        self._sk = o._sk

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = self.copy()
        for k in list(dict.keys(r)):
            dict.__setitem__(r, k, _copy.deepcopy(dict.__getitem__(r, k),
                                                  memo))
        return r

    def __reduce__(self):
        return (type(self), (list(dict.items(self)),))

    def __eq__(self, o):
        if not isinstance(o, dict) or len(self) != len(o):
            return False
        for k in dict.keys(self):
            if k not in o:
                return False
            r = dict.__getitem__(self, k) == o[k]
            if not bool(r):
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls([(k, v) for k in it])


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SymDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        r = SymDefaultDict(self.default_factory)
        r._copy_from(self)
        return r


class SymCounter(SymDict):
    def __init__(self, it=(), **k):
        SymDict.__init__(self)
        if isinstance(it, dict):
            self.update(it)
        else:
            for x in it:
                self[x] = self[x] + 1

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        r = sorted(dict.items(self), key=lambda t: t[1], reverse=True)
        return r[:n]

    def elements(self):
        for k, v in dict.items(self):
            for _ in range(v):
                yield k


class SymSet:
    """set of possibly symbolic elements"""

    def __init__(self, it=()):
        self.d = SymDict()
        for x in it:
            self.d[x] = True

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(list(self.d.keys()))

    def __contains__(self, x):
        return x in self.d

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        if x in self.d:
            del self.d[x]

    def remove(self, x):
        del self.d[x]

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return SymSet(self)

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def intersection(self, *o):
        r = self
        for s in o:
            s = s if isinstance(s, SymSet) else SymSet(s)
            r = SymSet(x for x in r if x in s)
        return r

    def difference(self, *o):
        r = self
        for s in o:
            s = s if isinstance(s, SymSet) else SymSet(s)
            r = SymSet(x for x in r if x not in s)
        return r

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(o).difference(self))

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def pop(self):
        k = next(iter(self.d.keys()))
        del self.d[k]
        return k

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference
    __le__ = issubset
    __ge__ = issuperset

    def __eq__(self, o):
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return len(self.d) > 0

    __hash__ = None

    @classmethod
    def _sx_isinstance(cls, x):
        return isinstance(x, (SymSet, set, frozenset))


def sx_dict(*a, **k):
    return SymDict(*a, **k)


def sx_set(*a):
    return SymSet(*a)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    if TEXT is not None and hasattr(file, 'fs'):
        file.write((' ' if sep is None else sep).join(
            [sx_str(x) for x in a]) + ('\n' if end is None else end))


def sx_mod(f, a):
    if TEXT is not None:
        t = a if isinstance(a, tuple) else (a,)
        specs = _re.findall(r'%[^a-zA-Z%]*[a-zA-Z%]', f)
        if any(isinstance(x, Sym) for x in t) and \
                len([x for x in specs if x != '%%']) == len(t):
            out, i = [], iter(t)
            at = 0
            for m in _re.finditer(r'%[^a-zA-Z%]*[a-zA-Z%]', f):
                out.append(f[at:m.start()])
                at = m.end()
                if m.group() == '%%':
                    out.append('%')
                    continue
                x = next(i)
                if isinstance(x, Sym):
                    if m.group() not in ('%d', '%s', '%i'):
                        raise Unsupported('format %s' % m.group())
                    out.append(sx_str(x))
                else:
                    out.append(m.group() % (x,))
            return ''.join(out) + f[at:]
    return f % a


def sx_round(x, n=None):
    if isinstance(x, SymArray):
        return npfun.round_(x, n or 0)
    if isinstance(x, SymReal):
        if n is None:
            r = x.round_()
            return r
        return npfun.round_(x, n)
    return round(x) if n is None else round(x, n)


def sx_type(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, (SymArray, RecArray)):
        return SymArray
    if isinstance(x, SymReal):
        return float
    if isinstance(x, SymInt):
        return RN.int64 if x.np else int
    if isinstance(x, NInt):
        return RN.int64
    if isinstance(x, SymBool):
        return RN.bool_ if x.np else bool
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymDict):
        return dict if type(x) is SymDict else type(x)
    return type(x)


def collections_shim():
    import collections
    n = Namespace('collections', **{k: getattr(collections, k)
                                    for k in dir(collections)
                                    if not k.startswith('__')})
    n.defaultdict = SymDefaultDict
    n.Counter = SymCounter
    n.OrderedDict = SymDict
    return n


# ---------------------------------------------------------------------------
# source rewriting
# ---------------------------------------------------------------------------
CALLS = {'int': sx_int, 'float': sx_float, 'bool': sx_bool, 'str': sx_str,
         'set': sx_set, 'dict': sx_dict, 'round': sx_round,
         'frozenset': sx_set, 'type': sx_type}
NPTYPES = {'float64', 'float32', 'float16', 'float_', 'int64', 'int32',
           'int16', 'int8', 'int_', 'intp', 'bool_', 'uint8', 'uint64',
           'uint32', 'uint16', 'double', 'longdouble', 'str_', 'single',
           'half', 'uint', 'bool8'}


class Rewriter(ast.NodeTransformer):
    def _call(self, name, args, node):
        n = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args,
                     keywords=[])
        return ast.copy_location(n, node)

    def visit_Constant(self, node):
        if type(node.value) is float:
            return self._call('__sx_f__', [node], node)
        return node

    def visit_JoinedStr(self, node):
        # do not rewrite format specifications
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self._call('__sx_div__', [node.left, node.right], node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(node.left.value, str):
            return self._call('__sx_mod__', [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            load = _copy.deepcopy(node.target)
            load.ctx = ast.Load()
            for x in ast.walk(load):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Load()
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self._call('__sx_idiv__', [load, node.value], node)),
                node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in CALLS:
            node.func = ast.copy_location(
                ast.Name(id='__sx_c_' + f.id + '__', ctx=ast.Load()), f)
        elif isinstance(f, ast.Attribute) and f.attr in NPTYPES:
            node.args = [f] + node.args
            node.func = ast.copy_location(
                ast.Name(id='__sx_npcast__', ctx=ast.Load()), f)
        return node

    def visit_DictComp(self, node):
        self.generic_visit(node)
        lc = ast.copy_location(ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators), node)
        return self._call('__sx_c_dict__', [lc], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.copy_location(ast.ListComp(
            elt=node.elt, generators=node.generators), node)
        return self._call('__sx_c_set__', [lc], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call('__sx_c_set__', [ast.copy_location(
            ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys and (any(k is None for k in node.keys) or all(
                isinstance(k, ast.Constant) for k in node.keys)):
            return node
        # computed keys, and empty displays (filled later)
        return self._call('__sx_c_dict__', [node] if node.keys else [], node)


_code_cache = {}


def compile_source(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key in _code_cache:
        return _code_cache[key]
    with open(path, encoding='utf-8') as f:
        src = f.read()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Rewriter().visit(tree))
        code = compile(tree, path, 'exec')
    _code_cache[key] = code
    return code


# ---------------------------------------------------------------------------
# the importer
# ---------------------------------------------------------------------------
class Loader:
    """one fresh copy of the project's modules"""

    def __init__(self, shims, roots=None):
        self.shims = shims            # name -> module-like object
        self.mods = {}
        self.roots = roots or {'kamrecsys': os.path.join(REPO, 'kamrecsys')}
        self.scripts = {}             # extra single-file modules: name->path
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            '__import__': self.import_, 'isinstance': sx_isinstance,
            'print': sx_print, 'sum': sx_sum,
        })
        for n, f in CALLS.items():
            self.builtins['__sx_c_' + n + '__'] = f
        self.builtins.update({
            '__sx_f__': sx_f, '__sx_div__': sx_div, '__sx_idiv__': sx_idiv,
            '__sx_npcast__': sx_npcast, '__sx_mod__': sx_mod})

    def _path(self, name):
        if name in self.scripts:
            return self.scripts[name], False
        parts = name.split('.')
        if parts[0] not in self.roots:
            return None
        p = os.path.join(self.roots[parts[0]], *parts[1:])
        if os.path.isdir(p) and os.path.exists(os.path.join(p,
                                                            '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py'):
            return p + '.py', False
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        pp = self._path(name)
        if pp is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        par = name.rpartition('.')[0]
        if par and self._path(par) is not None:
            self.load(par)
            if name in self.mods:
                return self.mods[name]
        path, pkg = pp
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        if pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        try:
            exec(compile_source(path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            if par in self.mods:
                setattr(self.mods[par], leaf, m)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        top = name.split('.')[0]
        if name in self.scripts or top in self.roots:
            m = self.load(name)
            if not fromlist:
                return self.load(top)
            for a in fromlist:
                if a != '*' and not hasattr(m, a) and \
                        self._path(name + '.' + a):
                    self.load(name + '.' + a)
            return m
        if top in self.shims:
            m = self.shims[top]
            if not fromlist:
                return m
            for part in name.split('.')[1:]:
                try:
                    m = getattr(m, part)
                except AttributeError:
                    raise ModuleNotFoundError('No module named %r' % name)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)


class Namespace:
    """module-like bag of attributes"""

    def __init__(self, name, **kw):
        self.__name__ = name
        self.__dict__.update(kw)
