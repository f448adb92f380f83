"""Symbolic scalars and the path-exploring engine."""
import os
import sys
import time
from fractions import Fraction
import numbers
import math

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)     # at the end: numpy & co. stay the project's own
import z3  # noqa: E402
from . import interval, poly  # noqa: E402


class Unsupported(BaseException):
    """An operation outside the encoding (the path is inconclusive)."""


class PathAbort(BaseException):
    """The current path is abandoned (assumption failed / infeasible)."""


class Inconclusive(BaseException):
    """Solver answered unknown, or a budget ran out."""


ENG = None     # the engine in charge of the current symbolic run


def eng():
    if ENG is None:
        raise RuntimeError('no symbolic engine is active')
    return ENG


# ---------------------------------------------------------------------------
# engine
# ---------------------------------------------------------------------------
class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.obligations = 0
        self.discharged = 0
        self.syntactic = 0
        self.solver_s = 0.0
        self.max_query_s = 0.0
        self.forks = 0


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None):
        self.stats = Stats()
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.model_overflow = False
        self.fp_mode = False
        self.use_signs = False
        self.ite_index = False
        self.np_random = None
        self.work = [[]]
        self.varsets = {}
        self.lincache = {}
        self.reset_path([])

    # -- path state ----------------------------------------------------------
    def reset_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = []
        self.pcvars = []
        self.model = None
        self.guessed = -1
        self.inputs = {}          # name -> (kind, expr, info)
        self.uf = {}              # (fname, key) -> (arg, result)
        self.fresh_no = {}
        self.cfg = {}             # configuration choices taken on this path
        self.known = {}           # cond ast id -> bool on this path
        self.keep = []            # keep z3 terms alive (ids are reused)
        self.observed = []
        self.rng_streams = {}
        self.log = []
        self.squares = {}         # sqrt variable -> its argument
        self.ufvars = set()
        self.ufnf = {}            # (fname, normal form of arg) -> result
        self.ring = self.ring2 = None       # normal forms
        self.signs = None         # signs of normal forms
        self.linear = {}          # variable -> linear term it equals
        self.bounds = interval.Bounds()
        self.hard = []
        self.hardvars = set()
        self.slow = False         # has a query taken long on this path?
        if len(self.varsets) > 100000:
            self.varsets = {}
        self.axioms = set()       # facts about functions, by position in pc

    def _input(self, name, kind, mk):
        if name not in self.inputs:
            self.inputs[name] = (kind, mk(name))
        return self.inputs[name][1]

    def input_real(self, name):
        return self._input(name, 'real', z3.Real)

    def input_int(self, name):
        return self._input(name, 'int', z3.Int)

    def input_bool(self, name):
        return self._input(name, 'bool', z3.Bool)

    def fresh(self, stem):
        i = self.fresh_no.get(stem, 0)
        self.fresh_no[stem] = i + 1
        return '%s!%d' % (stem, i)

    # -- solver --------------------------------------------------------------
    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        t = time.time()
        self.stats.queries += 1
        if self.slow and len(extra) == 1 and self._local_unsat(extra[0]):
            self.stats.solver_s += time.time() - t
            return z3.unsat
        if len(extra) > 1:          # with non-linear facts
            self.solver.set('timeout', min(self.timeout_ms, 3000))
            r = self.solver.check(*extra)
            self.solver.set('timeout', self.timeout_ms)
        else:
            r = self.solver.check(*extra)
        d = time.time() - t
        if d > 0.03:
            self.slow = True
        self.stats.solver_s += d
        if d > self.stats.max_query_s:
            self.stats.max_query_s = d
        if os.environ.get('SYMEX_SLOW') and d > 1:
            print('SLOW QUERY %.1fs -> %s' % (d, r), extra, file=sys.stderr)
        return r

    def _vars(self, e, most=40):
        """the variables of a small term; None for a larger one"""
        k = e.get_id()
        if k in self.varsets:
            return self.varsets[k][1]
        r, todo, n = set(), [e], 0
        while todo:
            t = todo.pop()
            n += 1
            if n > most:
                r = None
                break
            ch = t.children()
            if ch:
                todo.extend(ch)
            elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(t.get_id())
        self.varsets[k] = e, r
        return r

    def _local_unsat(self, cond):
        """is cond refuted by the small constraints over its own variables?

        Cheap, and enough for bounds; a subset of the path condition that
        is unsatisfiable with cond refutes cond.
        """
        vs = self._vars(cond, 200)
        if vs is None or len(vs) > 6:
            return False
        pcv = self.pcvars
        for c in self.pc[len(pcv):]:
            pcv.append(self._vars(c))
        sub = [c for c, w in zip(self.pc, pcv) if w is not None and w <= vs]
        if not sub:
            return False
        s = z3.Solver()
        s.set('timeout', 200)
        s.add(*sub)
        return s.check(cond) == z3.unsat

    def add(self, cond):
        self.pc.append(cond)
        self.solver.add(cond)
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if not z3.is_true(v):
                self.model = None

    def add_hard(self, cond):
        """a non-linear fact about a root, used only where it may matter"""
        self.pc.append(cond)
        self.hard.append(cond)

    def mentions_root(self, e):
        """does the term contain a root whose square is known?"""
        seen = set()
        todo = [e]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.get_id() in self.hardvars:
                return True
            todo.extend(t.children())
        return False

    def assume(self, cond):
        cond = zbool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort()
        self.add(cond)
        if self.model is None:
            self.get_model()

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                self._guess_model()
                return self.model
            self.model = self.solver.model()
        return self.model

    def _guess_model(self):
        """a model from concrete inputs, where the solver finds none

        Without one the path is explored all the same: its feasibility is
        unknown, what is checked on it then covers more than it has to.
        """
        n = len(self.pc)
        if self.guessed == n:
            return
        self.guessed = n
        for at in self.guesser(self, 4):
            if self._check(*at) == z3.sat:
                self.model = self.solver.model()
                return
        self.log.append('feasibility of a path unknown')

    def implied(self, cond):
        """True if the path condition entails cond (solver)"""
        cond = z3.simplify(zbool(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        m = self.get_model()
        if m is not None and \
                not z3.is_true(m.eval(cond, model_completion=True)):
            return False
        return self._check(z3.Not(cond)) == z3.unsat

    def choose(self, name, options):
        """configuration choice: one path per option (no solver involved)"""
        i = len(self.decisions)
        if i < len(self.prefix):
            k = self.prefix[i][1]
        else:
            k = 0
            for j in range(len(options) - 1, 0, -1):
                self.work.append(self.decisions + [('c', j)])
        self.decisions.append(('c', k))
        self.cfg[name] = k
        return options[k]

    # -- exploration ---------------------------------------------------------
    def paths(self):
        """iterate: set up each path; caller runs the harness in the loop"""
        while self.work:
            if self.stats.paths >= self.max_paths:
                raise Inconclusive('more than %d paths' % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive('time budget exhausted')
            prefix = self.work.pop()
            self.reset_path(prefix)
            self.stats.paths += 1
            yield prefix


# every branch outcome is recorded, implied ones too, so that re-executing a
# prefix never calls the solver
def _branch(self, cond):
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    key = cond.get_id()
    if key in self.known:
        return self.known[key]
    if not linear_cond(cond):
        self.bounds.update(self.pc)
        v = self.bounds.decide(cond)
        if v is None and self.use_signs:
            v = poly.decide(cond, self)
        if v is not None:
            self.known[key] = v
            self.keep.append(cond)
            return v
    self.stats.branches += 1
    i = len(self.decisions)
    if i < len(self.prefix):
        v = self.prefix[i]
        if v not in (True, False):
            raise RuntimeError('non-deterministic replay: %r' % (v,))
        self.decisions.append(v)
        self.add(cond if v else z3.Not(cond))
    else:
        hard = self.hard if self.hard and self.mentions_root(cond) else []
        m = self.get_model()
        if m is None:
            v = self._check(cond, *hard) != z3.unsat
        else:
            v = z3.is_true(m.eval(cond, model_completion=True))
        other = z3.Not(cond) if v else cond
        if m is None and not v:
            r = z3.unsat
        elif hard and self._local_unsat(other):
            r = z3.unsat
        else:
            if hard:
                if self._check(z3.Not(other), *hard) == z3.unsat:
                    v, other = not v, z3.Not(other)
                    self.model = None
            r = self._check(other, *hard)
        if r != z3.unsat:
            if r == z3.unknown:
                self.log.append('branch feasibility unknown')
            self.stats.forks += 1
            self.work.append(self.decisions + [not v])
        self.decisions.append(v)
        took = cond if v else z3.Not(cond)
        self.pc.append(took)
        self.solver.add(took)
    self.known[key] = v
    neg = z3.simplify(z3.Not(cond))
    self.known[neg.get_id()] = not v
    self.keep.append(cond)
    self.keep.append(neg)
    return v


def _concretize(self, e, lo=None, hi=None):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    key = ('c', e.get_id())
    if key in self.known:
        return self.known[key]
    while e.decl().kind() == z3.Z3_OP_ITE and not linear_cond(e.arg(0)):
        e = z3.simplify(e.arg(1) if _branch(self, e.arg(0)) else e.arg(2))
    if z3.is_int_value(e):
        self.known[key] = e.as_long()
        return e.as_long()
    n = 0
    while True:
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            if d[0] == 'v':
                self.add(e == d[1])
                v = d[1]
                break
            assert d[0] == 'nv', d
            self.add(e != d[1])
            continue
        self.stats.branches += 1
        m = self.get_model()
        if m is None:
            raise Inconclusive('path condition: solver says unknown')
        v = m.eval(e, model_completion=True).as_long()
        r = self._check(e != v)
        if r != z3.unsat:
            n = sum(1 for d in self.decisions
                    if isinstance(d, tuple) and d[0] == 'nv')
            if n > 400:
                raise Unsupported('concretisation over too many values')
            self.stats.forks += 1
            self.work.append(self.decisions + [('nv', v)])
        self.decisions.append(('v', v))
        self.add(e == v)
        break
    self.known[key] = v
    self.keep.append(e)
    return v


Engine.branch = _branch
Engine.concretize = _concretize


# ---------------------------------------------------------------------------
# conversions
# ---------------------------------------------------------------------------
def is_sym(x):
    return isinstance(x, Sym)


def frac(x):
    """exact rational for a concrete number (floats by their decimal form)"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise ValueError('not finite')
    return Fraction(repr(x))


def is_special(x):
    """NaN or infinity (a concrete float)"""
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def isnan(x):
    return isinstance(x, float) and x != x


def zreal(x):
    """z3 Real term"""
    if isinstance(x, SymReal):
        return z3.RealVal(x.v) if isinstance(x.v, Fraction) else x.v
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ExprRef):
        return z3.ToReal(x) if z3.is_int(x) else x
    return z3.RealVal(frac(x))


def zint(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SymStr):
        raise TypeError('string id used as a number')
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(int(x))


def zbool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymReal):
        return (z3.BoolVal(x.v != 0) if isinstance(x.v, Fraction)
                else x.v != 0)
    if isinstance(x, SymInt):
        return x.e != 0
    if is_special(x):
        return z3.BoolVal(True)
    return z3.BoolVal(bool(x))


def mkbool(e, np=False):
    """SymBool or Python bool from a z3 Bool"""
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e, np)


def mkint(e, np=False):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, np)


def mkreal(e):
    if isinstance(e, Fraction):
        return SymReal(e)
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return SymReal(Fraction(e.numerator_as_long(),
                                e.denominator_as_long()))
    return SymReal(e)


class NInt(int):
    """a concrete numpy integer scalar (element of an array)"""
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('int64')

    def item(self):
        return int(self)

    def tolist(self):
        return int(self)

    def copy(self):
        return self

    def astype(self, dt):
        from . import nparr
        return nparr.scalar_out(
            nparr.cast_elem(int(self), nparr.real_dtype(dt)),
            nparr.real_dtype(dt))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (NInt, (int(self),))

    def __truediv__(self, o):
        if type(o) in (int, NInt, bool):
            return SymReal._div(tosymreal(int(self)), tosymreal(int(o)))
        return NotImplemented

    def __rtruediv__(self, o):
        if type(o) in (int, NInt, bool):
            return SymReal._div(tosymreal(int(o)), tosymreal(int(self)))
        return NotImplemented


def _nint_op(name):
    f = getattr(int, name)

    def op(self, *o):
        r = f(self, *o)
        return NInt(r) if type(r) is int else r
    op.__name__ = name
    return op


for _n in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'floordiv',
           'rfloordiv', 'mod', 'rmod', 'neg', 'pos', 'abs', 'and', 'or',
           'xor'):
    setattr(NInt, '__%s__' % _n, _nint_op('__%s__' % _n))


HASH = 0x5eed


class Sym:
    """base of symbolic scalars, with the small numpy-scalar interface"""
    __array_priority__ = 1000
    __array_ufunc__ = None
    np = False

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(self._dt)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dt):
        from . import nparr
        return nparr.cast_elem(self, nparr.real_dtype(dt))

    def ravel(self):
        from . import nparr
        return nparr.mk([self])

    reshape_ = None

    def tolist(self):
        return self

    def sum(self, *a, **k):
        return self

    def __str__(self):
        from . import loader
        if loader.TEXT is not None:
            return loader.sx_str(self)
        return repr(self)

    def __format__(self, spec):
        from . import loader
        if loader.TEXT is not None:
            r = loader.TEXT(self) if spec in ('', 'd') else None
            if r is None:
                raise Unsupported('format %r of a symbolic value' % spec)
            return r
        return '<%s>' % type(self).__name__

    def __float__(self):
        raise Unsupported('float() of a symbolic value at a C boundary')

    def __array__(self, *a, **k):
        raise Unsupported('numpy conversion of a symbolic scalar')


def _num(x):
    return isinstance(x, (Sym, numbers.Number)) and not isinstance(x, SymStr)


def is_realish(x):
    return isinstance(x, (SymReal, Fraction)) or (
        isinstance(x, numbers.Real) and not isinstance(x, numbers.Integral)
        and not isinstance(x, bool))


def _defer(x):
    """operand types handled by the array class"""
    return hasattr(x, '__symarray__') or not _num(x)


class SymBool(Sym):
    _dt = bool

    def __init__(self, e, np=False):
        self.e = e
        self.np = np

    def __hash__(self):
        return HASH

    def __bool__(self):
        return eng().branch(self.e)

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def _bop(self, o, f):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f(self.e, zbool(o)), True)
        if _defer(o):
            return NotImplemented
        return NotImplemented

    def __and__(self, o):
        return self._bop(o, z3.And)

    def __or__(self, o):
        return self._bop(o, z3.Or)

    def __xor__(self, o):
        return self._bop(o, z3.Xor)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e), True)

    def _i(self):
        return SymInt(zint(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return self._i() + (o._i() if isinstance(o, SymBool) else o)

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * (o._i() if isinstance(o, SymBool) else o)

    def __rmul__(self, o):
        return o * self._i()

    def __truediv__(self, o):
        return self._i() / o

    def __rtruediv__(self, o):
        return o / self._i()

    def __neg__(self):
        return -self._i()

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == zbool(o), True)
        if _defer(o):
            return NotImplemented
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __abs__(self):
        return self

    def __pow__(self, o):
        return self._i() ** o


def bnot(x):
    if isinstance(x, SymBool):
        return ~x
    return not x


def _array(x):
    from . import npfun
    return npfun.array(x)


class SymInt(Sym):
    _dt = 'int64'

    def __init__(self, e, np=False):
        self.e = e
        self.np = np

    def __hash__(self):
        return HASH

    def __repr__(self):
        return 'SymInt(%s)' % self.e

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return eng().concretize(self.e)

    def __int__(self):
        return eng().concretize(self.e)

    def _arith(self, o, fi, fr, rev=False):
        if isinstance(o, (SymReal, float, Fraction)):
            a, b = SymReal(zreal(self)), o
            return fr(b, a) if rev else fr(a, b)
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, SymInt) or (isinstance(o, numbers.Integral)):
            a, b = self.e, zint(o)
            if rev:
                a, b = b, a
            r = mkint(fi(a, b), self.np or getattr(o, 'np', False))
            return r
        return NotImplemented

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._arith(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if _defer(o):
            return NotImplemented
        return SymReal(zreal(self)) / o

    def __rtruediv__(self, o):
        if _defer(o):
            return NotImplemented
        return tosymreal(o) / SymReal(zreal(self))

    def _div(self, a, b, mod):
        # Python floor semantics; divisor zero forks
        if mkbool(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        bs = z3.simplify(b)
        if z3.is_int_value(bs) and bs.as_long() > 0:
            return a % b if mod else a / b
        if mkbool(b > 0):
            return a % b if mod else a / b
        # b < 0 : floor(a/b) = floor((-a)/(-b))
        return -((-a) % (-b)) if mod else (-a) / (-b)

    def __floordiv__(self, o):
        if isinstance(o, (SymReal, float, Fraction)):
            return SymReal(zreal(self)) // o
        if not isinstance(o, (SymInt, SymBool, numbers.Integral)):
            return NotImplemented
        return mkint(self._div(self.e, zint(o), False))

    def __rfloordiv__(self, o):
        if not isinstance(o, (SymInt, SymBool, numbers.Integral)):
            return NotImplemented
        return mkint(self._div(zint(o), self.e, False))

    def __mod__(self, o):
        if not isinstance(o, (SymInt, SymBool, numbers.Integral)):
            return NotImplemented
        return mkint(self._div(self.e, zint(o), True))

    def __rmod__(self, o):
        if not isinstance(o, (SymInt, SymBool, numbers.Integral)):
            return NotImplemented
        return mkint(self._div(zint(o), self.e, True))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if isinstance(o, numbers.Integral) and o >= 0:
            r = 1
            for _ in range(int(o)):
                r = self * r
            return r
        if _defer(o):
            return NotImplemented
        return SymReal(zreal(self)) ** o

    def __neg__(self):
        return mkint(-self.e, self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e), self.np)

    def __round__(self, n=None):
        return self

    __trunc__ = __floor__ = __ceil__ = lambda self: self

    def conjugate(self):
        return self

    def _cmp(self, o, fi, spec):
        if isinstance(o, SymInt):
            return mkbool(fi(self.e, o.e), True)
        if isinstance(o, numbers.Integral) or isinstance(o, SymBool):
            return mkbool(fi(self.e, zint(o)), True)
        if isinstance(o, (SymReal, float, Fraction)):
            if is_special(o):
                return spec(0.0, o)
            return mkbool(fi(zreal(self), zreal(o)), True)
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)) or o is None:
            return False
        if self.np and isinstance(o, (list, tuple)):
            return _array(o) == self
        return self._cmp(o, lambda a, b: a == b, lambda a, b: False)

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)) or o is None:
            return True
        if self.np and isinstance(o, (list, tuple)):
            return _array(o) != self
        return self._cmp(o, lambda a, b: a != b, lambda a, b: True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)


class SymStr(Sym):
    """an id of an abstract totally ordered type, standing for a string"""
    _dt = '<U8'

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return HASH

    def __repr__(self):
        return 'SymStr(%s)' % self.e

    def __bool__(self):
        return True

    def __str__(self):
        return self

    def _cmp(self, o, f):
        if isinstance(o, SymStr):
            return mkbool(f(self.e, o.e), True)
        if isinstance(o, str):
            return mkbool(f(self.e, z3.IntVal(str_rank(o))), True)
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(
            o, '__symarray__') else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented and not hasattr(
            o, '__symarray__') else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)


def str_rank(s):
    if len(s) == 6 and s[0] == 'k' and s[1:].isdigit():
        return int(s[1:])
    raise Unsupported('comparison of a symbolic string with %r' % s)


def rank_str(n):
    return 'k%05d' % n


def tosymreal(x):
    if isinstance(x, SymReal):
        return x
    if is_special(x):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return mkreal(zreal(x))
    if isinstance(x, complex):
        raise Unsupported('complex numbers')
    return SymReal(frac(x))


def _fl(e):
    """rounding model: some real within relative 2**-53 of the exact e"""
    E = eng()
    if not E.fp_mode:
        return mkreal(e)
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        if f.denominator == 1 and abs(f) < 2 ** 53:
            return SymReal(f)
    k = ('fl', e.get_id())
    if k in E.uf:
        return SymReal(E.uf[k][1])
    r = z3.Real(E.fresh('fl'))
    E.keep.append(e)
    E.uf[k] = (e, r)
    d = z3.If(e >= 0, e, -e) * z3.RealVal(Fraction(1, 2 ** 53))
    E.add(z3.And(r - e <= d, e - r <= d))
    return SymReal(r)


class SymReal(Sym):
    """a float, idealised as an exact real; concrete value or z3 term"""
    _dt = 'float64'

    def __init__(self, v, np=True):
        self.v = v

    np = True

    def __hash__(self):
        return HASH

    @property
    def const(self):
        return isinstance(self.v, Fraction)

    def __repr__(self):
        return 'R(%s)' % (self.v,)

    def __bool__(self):
        if self.const:
            return self.v != 0
        return eng().branch(self.v != 0)

    def __float__(self):
        if self.const:
            return float(self.v)
        raise Unsupported('float() of a symbolic value at a C boundary')

    def __int__(self):
        r = self.trunc()
        return int(r)

    def trunc(self):
        if self.const:
            return int(self.v)
        # toward zero
        e = self.v
        return mkint(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def floor_(self):
        if self.const:
            return math.floor(self.v)
        return mkint(z3.ToInt(self.v))

    def ceil_(self):
        if self.const:
            return math.ceil(self.v)
        return mkint(-z3.ToInt(-self.v))

    def round_(self):
        """round half to even"""
        if self.const:
            return round(self.v)
        f = z3.ToInt(self.v)
        d = self.v - z3.ToReal(f)
        h = z3.RealVal(Fraction(1, 2))
        return mkint(z3.If(d < h, f, z3.If(d > h, f + 1,
                                           z3.If(f % 2 == 0, f, f + 1))))

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return self.floor_()

    def __ceil__(self):
        return self.ceil_()

    def __round__(self, n=None):
        if n in (None, 0):
            r = self.round_()
            return r if n is None else tosymreal(r)
        raise Unsupported('round to decimals')

    def rint(self):
        return tosymreal(self.round_())

    def is_integer(self):
        if self.const:
            return self.v.denominator == 1
        return mkbool(z3.IsInt(self.v))

    def conjugate(self):
        return self

    def _bin(self, o, ff, fz, rev=False, op=None):
        if isinstance(o, SymReal):
            pass
        elif is_special(o):
            return op(self, o, rev)
        elif _defer(o):
            return NotImplemented
        else:
            o = tosymreal(o)
        a, b = (o, self) if rev else (self, o)
        if a.const and b.const and not eng_fp():
            return SymReal(ff(a.v, b.v))
        return _fl(fz(zreal(a), zreal(b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b,
                         op=lambda s, o, r: o)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True,
                         op=lambda s, o, r: o)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b,
                         op=lambda s, o, r: -o)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True,
                         op=lambda s, o, r: o)

    @staticmethod
    def _mul_special(s, o, rev):
        if isnan(o):
            return o
        if s > 0:
            return o
        if s < 0:
            return -o
        return math.nan

    def __mul__(self, o):
        if o is self or isinstance(o, SymReal) and not o.const and \
                not self.const and o.v.eq(self.v):
            E = eng()
            if E is not None and not self.const and z3.is_const(self.v):
                sq = E.squares.get(self.v.get_id())
                if sq is not None:          # sqrt(a) * sqrt(a)
                    return mkreal(sq)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b,
                         op=SymReal._mul_special)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True,
                         op=SymReal._mul_special)

    @staticmethod
    def _div(a, b):
        """a / b with numpy's semantics for a zero divisor"""
        if is_special(b):
            return b if isnan(b) else SymReal(Fraction(0))
        if is_special(a):
            if isnan(a):
                return a
            return a if (b >= 0) else -a
        if b == 0:
            if a == 0:
                return math.nan
            return math.inf if a > 0 else -math.inf
        if a.const and b.const and not eng_fp():
            return SymReal(a.v / b.v)
        if b.const:
            return _fl(zreal(a) * z3.RealVal(1 / b.v)) if not eng_fp() \
                else _fl(zreal(a) / z3.RealVal(b.v))
        return _fl(zreal(a) / zreal(b))

    def __truediv__(self, o):
        if _defer(o):
            return NotImplemented
        return SymReal._div(self, tosymreal(o))

    def __rtruediv__(self, o):
        if _defer(o):
            return NotImplemented
        return SymReal._div(tosymreal(o), self)

    def __floordiv__(self, o):
        if _defer(o):
            return NotImplemented
        r = self / o
        return r if is_special(r) else tosymreal(r.floor_())

    def __rfloordiv__(self, o):
        if _defer(o):
            return NotImplemented
        r = o / self
        return r if is_special(r) else tosymreal(r.floor_())

    def __mod__(self, o):
        if _defer(o):
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if _defer(o):
            return NotImplemented
        return tosymreal(o) % self

    def __pow__(self, o, mod=None):
        if isinstance(o, SymReal) and o.const:
            o = o.v
        if isinstance(o, (float, Fraction)) and not is_special(o):
            o = frac(o)
            if o.denominator == 1:
                o = int(o)
            elif o == Fraction(1, 2):
                return self.sqrt()
        if isinstance(o, numbers.Integral):
            n = int(o)
            if n < 0:
                return 1 / (self ** (-n))
            if self.const:
                return SymReal(self.v ** n)
            r = SymReal(Fraction(1))
            for _ in range(n):
                r = r * self
            return r
        if _defer(o):
            return NotImplemented
        raise Unsupported('power with a symbolic exponent')

    def __rpow__(self, o):
        if _defer(o):
            return NotImplemented
        if self.const and self.v.denominator == 1:
            return tosymreal(o) ** int(self.v)
        raise Unsupported('power with a symbolic exponent')

    def __neg__(self):
        return SymReal(-self.v) if self.const else mkreal(-self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.const:
            return SymReal(abs(self.v))
        # one form for |x| and |-x|
        a, b = canon(self.v), canon(-self.v)
        if (len(a.sexpr()), a.sexpr()) > (len(b.sexpr()), b.sexpr()):
            a = b
        if syn_nonneg(a):
            return mkreal(a)
        if z3.is_to_real(a):        # integers stay linear
            return mkreal(z3.If(a >= 0, a, -a))
        E = eng()
        n = len(E.uf)
        r = _uf('abs', a, lambda a, r: [
            r >= 0, r == z3.If(a >= 0, a, -a)])
        if len(E.uf) > n:
            E.squares[r.get_id()] = a * a
        return SymReal(r)

    def _cmp(self, o, ff, fz):
        if isinstance(o, SymReal):
            pass
        elif is_special(o):
            return ff(0.0, o)
        elif _defer(o):
            return NotImplemented
        else:
            o = tosymreal(o)
        if self.const and o.const:
            return ff(self.v, o.v)
        if o.const and o.v <= 0 and syn_nonneg(self.v):
            r = ff(0, o.v)
            if r == ff(1, o.v):
                return r
        if self.const and self.v <= 0 and syn_nonneg(o.v):
            r = ff(self.v, 0)
            if r == ff(self.v, 1):
                return r
        return mkbool(fz(zreal(self), zreal(o)), True)

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)) or o is None:
            return False
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        if isinstance(o, (str, SymStr)) or o is None:
            return True
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    # transcendental functions (called by numpy's object loops, too)
    def sqrt(self):
        return uf_sqrt(self)

    def exp(self):
        return uf_exp(self)

    def log(self):
        return uf_log(self)

    @property
    def real(self):
        return self


def eng_fp():
    return ENG is not None and ENG.fp_mode


# ---------------------------------------------------------------------------
# uninterpreted real functions with axioms
# ---------------------------------------------------------------------------
def canon(e):
    return z3.simplify(e, som=True, arith_lhs=False, blast_distinct=False)


BIG = 30


def dag_size(e, most):
    seen = set()
    todo = [e]
    while todo and len(seen) <= most:
        t = todo.pop()
        k = t.get_id()
        if k not in seen:
            seen.add(k)
            todo.extend(t.children())
    return len(seen)


def linear(e, depth=0):
    """no product or quotient of two unknowns"""
    if not e.num_args():
        return True
    k = e.decl().kind()
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_POWER):
        n = 0
        for c in e.children():
            if not (z3.is_rational_value(c) or z3.is_int_value(c)):
                n += 1
        if n > 1 or k == z3.Z3_OP_POWER:
            return False
        if k == z3.Z3_OP_DIV and not (z3.is_rational_value(e.arg(1)) or
                                      z3.is_int_value(e.arg(1))):
            return False
    if depth > 60:
        return False
    return all(linear(c, depth + 1) for c in e.children())


def linear_cond(c):
    E = eng()
    k = c.get_id()
    r = E.lincache.get(k)
    if r is None:
        r = linear(c), c
        E.lincache[k] = r
    return r[0]


def bound(ax, r):
    """a comparison of r with a constant"""
    return ax.num_args() == 2 and ax.arg(0).eq(r) and \
        z3.is_rational_value(ax.arg(1))


def _uf(name, arg, axioms, pair=None):
    """result variable of function `name` at z3 term `arg`"""
    E = eng()
    a = canon(arg)
    key = (name, a.get_id())
    if key in E.uf:
        return E.uf[key][1]
    nl = not linear(a)
    nf = None
    if nl:
        # equal arguments, though differently written?
        if E.ring is None:
            E.ring = poly.Ring(E.squares)
        nf = E.ring.key(a)
        if nf is not None:
            if (name, nf) in E.ufnf:
                return E.ufnf[name, nf]
    r = z3.Real(E.fresh(name))
    E.keep.append(a)
    n = len(E.pc)
    if nf is not None:
        E.ufnf[name, nf] = r

    big = nl and dag_size(a, BIG) > BIG

    def put(ax, hard):
        if hard and big:
            return              # no solver would make use of it
        if hard:
            E.add_hard(ax)
            E.hardvars.add(r.get_id())
        else:
            E.add(ax)

    for ax in axioms(a, r):
        put(ax, nl and not bound(ax, r))
    for (nm, _), (b, s) in list(E.uf.items()):
        if nm == name and pair is not None:
            hard = nl or not linear(b)
            for ax in pair(a, r, b, s):
                put(ax, hard)
    E.axioms.update(range(n, len(E.pc)))
    E.uf[key] = (a, r)
    E.ufvars.add(r.get_id())
    return r


def _mono(a, r, b, s):
    return [z3.Implies(a == b, r == s), z3.Implies(a < b, r < s),
            z3.Implies(a > b, r > s)]


def _cong(a, r, b, s):
    return [z3.Implies(a == b, r == s)]


def _enclose(fn, a):
    """tight rational bounds of a function at a rational constant"""
    if not z3.is_rational_value(a):
        return None
    import decimal
    f = Fraction(a.numerator_as_long(), a.denominator_as_long())
    if abs(f) > 1000 or fn == 'log' and f <= 0:
        return None
    with decimal.localcontext() as c:
        c.prec = 60
        d = decimal.Decimal(f.numerator) / decimal.Decimal(f.denominator)
        v = d.ln() if fn == 'log' else 1 / (1 + (-d).exp())
        v = Fraction(v)
        e = abs(v) / 10 ** 30 + Fraction(1, 10 ** 50)
        return z3.RealVal(str(v - e)), z3.RealVal(str(v + e))


def syn_nonneg(e, depth=0):
    """e >= 0 by its form alone: sums and products of squares and the like"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        return e.as_fraction() >= 0 if z3.is_rational_value(e) else \
            e.as_long() >= 0
    if depth > 30:
        return False
    if z3.is_const(e):
        E = eng()
        return e.get_id() in E.squares
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return all(syn_nonneg(c, depth + 1) for c in ch)
    if k == z3.Z3_OP_DIV:
        return all(syn_nonneg(c, depth + 1) for c in ch)
    if k == z3.Z3_OP_MUL:
        rest = []
        for c in ch:
            for i, r in enumerate(rest):
                if r.eq(c):
                    del rest[i]
                    break
            else:
                rest.append(c)
        return all(syn_nonneg(c, depth + 1) for c in rest)
    if k == z3.Z3_OP_POWER:
        n = ch[1]
        return z3.is_rational_value(n) and n.denominator_as_long() == 1 \
            and n.numerator_as_long() % 2 == 0 or \
            z3.is_int_value(n) and n.as_long() % 2 == 0
    if k == z3.Z3_OP_ITE:
        if syn_nonneg(ch[1], depth + 1) and syn_nonneg(ch[2], depth + 1):
            return True
        c = ch[0]       # if x >= 0 then x else -x
        return z3.is_app(c) and c.decl().kind() == z3.Z3_OP_GE and \
            c.arg(0).eq(ch[1]) and z3.is_rational_value(c.arg(1)) and \
            c.arg(1).numerator_as_long() == 0 and \
            canon(ch[1] + ch[2]).eq(z3.RealVal(0))
    return False


def _encl(fn, a, r):
    e = _enclose(fn, a)
    return [r >= e[0], r <= e[1]] if e else []


def uf_sqrt(x):
    x = tosymreal(x)
    if is_special(x):
        return math.sqrt(x) if x == math.inf else math.nan
    if x.const:
        if x.v < 0:
            return math.nan
        n, d = x.v.numerator, x.v.denominator
        if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return SymReal(Fraction(math.isqrt(n), math.isqrt(d)))
    if x < 0:
        return math.nan
    E = eng()
    n = len(E.uf)
    r = _uf('sqrt', zreal(x), lambda a, r: [r >= 0], _cong)
    if len(E.uf) > n:
        E.axioms.add(len(E.pc))
        E.add_hard(r * r == zreal(x))
        E.hardvars.add(r.get_id())
        E.squares[r.get_id()] = zreal(x)
    return SymReal(r)


def uf_expit(x):
    x = tosymreal(x)
    if is_special(x):
        if isnan(x):
            return x
        return SymReal(Fraction(1 if x > 0 else 0))
    if x.const and x.v == 0:
        return SymReal(Fraction(1, 2))
    E = eng()
    e = canon(zreal(x))
    neg = canon(-e)
    if ('expit', neg.get_id()) in E.uf:
        s = E.uf[('expit', neg.get_id())][1]
        return mkreal(1 - s)
    r = _uf('expit', e, lambda a, r: [
        r > 0, r < 1, z3.Implies(a == 0, r == z3.RealVal('1/2')),
        z3.Implies(a > 0, r > z3.RealVal('1/2')),
        z3.Implies(a < 0, r < z3.RealVal('1/2'))] + _encl('expit', a, r),
        lambda a, r, b, s: _mono(a, r, b, s) + [
            z3.Implies(a == -b, r == 1 - s),
            z3.Implies(a < -b, r < 1 - s), z3.Implies(a > -b, r > 1 - s)])
    return SymReal(r)


def uf_exp(x):
    x = tosymreal(x)
    if is_special(x):
        return math.exp(x) if isnan(x) or x > 0 else SymReal(Fraction(0))
    if x.const and x.v == 0:
        return SymReal(Fraction(1))
    s = uf_expit(x)
    return s / (1 - s)          # exp(x) = expit(x) / (1 - expit(x))


def uf_log(x):
    x = tosymreal(x)
    if is_special(x):
        return x if (isnan(x) or x > 0) else math.nan
    if x.const and x.v == 1:
        return SymReal(Fraction(0))
    if x <= 0:
        if x == 0:
            return -math.inf
        return math.nan
    r = _uf('log', zreal(x), lambda a, r: [
        z3.Implies(a == 1, r == 0), z3.Implies(a > 1, r > 0),
        z3.Implies(a < 1, r < 0)] + _encl('log', a, r), _mono)
    return SymReal(r)


def ite(c, a, b):
    """value-level if-then-else without forking where possible"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return SymStr(z3.simplify(z3.If(c.e, a.e, b.e)))
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.e, zbool(a), zbool(b)), True)
    if (not _num(a)) or (not _num(b)) or is_special(a) or is_special(b):
        return a if c else b           # forks
    if is_realish(a) or is_realish(b):
        return mkreal(z3.If(c.e, zreal(a), zreal(b)))
    return mkint(z3.If(c.e, zint(a), zint(b)),
                 getattr(a, 'np', False) or getattr(b, 'np', False))


# ---------------------------------------------------------------------------
# symbolic differentiation of z3 real terms
# ---------------------------------------------------------------------------
def diff(e, x, memo=None):
    """d e / d x, functions' result variables followed to their arguments"""
    E = eng()
    byvar = {r.get_id(): (nm, a, r) for (nm, _), (a, r) in E.uf.items()}
    memo = {} if memo is None else memo

    def D(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        r = D_(t)
        memo[k] = (t, r)
        return r

    zero, one = z3.RealVal(0), z3.RealVal(1)

    def is0(t):
        return z3.is_rational_value(t) and t.numerator_as_long() == 0

    def D_(t):
        if t.get_id() == x.get_id():
            return one
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return zero
        if z3.is_const(t):
            if t.get_id() in byvar:
                nm, a, r = byvar[t.get_id()]
                da = D(a)
                if is0(da):
                    return zero
                if nm == 'abs':
                    return z3.If(a >= 0, da, -da)
                if nm == 'sqrt':
                    return da / (2 * r)
                if nm == 'expit':
                    return r * (1 - r) * da
                if nm == 'log':
                    # d log(s), d log(1 - s) for a logistic value s
                    for (n2, _), (z, s) in E.uf.items():
                        if n2 != 'expit':
                            continue
                        if a.get_id() == s.get_id():
                            return (1 - s) * D(z)
                        if canon(a - (1 - s)).eq(canon(zero)):
                            return -s * D(z)
                    return da / a
                raise Unsupported('derivative of ' + nm)
            return zero
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            s = [D(c) for c in ch]
            s = [c for c in s if not is0(c)]
            return z3.simplify(z3.Sum(s)) if s else zero
        if d == z3.Z3_OP_SUB:
            r = D(ch[0])
            for c in ch[1:]:
                r = r - D(c)
            return z3.simplify(r)
        if d == z3.Z3_OP_UMINUS:
            return z3.simplify(-D(ch[0]))
        if d == z3.Z3_OP_MUL:
            out = []
            for i, c in enumerate(ch):
                dc = D(c)
                if is0(dc):
                    continue
                p = dc
                for j, o in enumerate(ch):
                    if j != i:
                        p = p * o
                out.append(p)
            return z3.simplify(z3.Sum(out)) if out else zero
        if d == z3.Z3_OP_DIV:
            u, v = ch
            return z3.simplify((D(u) * v - u * D(v)) / (v * v))
        if d == z3.Z3_OP_POWER:
            u, n = ch
            if z3.is_rational_value(n) or z3.is_int_value(n):
                return z3.simplify(n * u ** (n - 1) * D(u))
        if d == z3.Z3_OP_ITE:
            return z3.If(ch[0], D(ch[1]), D(ch[2]))
        if d == z3.Z3_OP_TO_REAL:
            return zero
        raise Unsupported('derivative of %s' % t.decl())

    return D(e)
