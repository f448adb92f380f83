"""Exact-as-possible evaluation of encoded terms at a concrete input point.

Result variables of the uninterpreted functions are evaluated by the real
function at the evaluated argument, so the outcome is what the real code
computes (up to rounding), not what the solver's model pretends.
"""
import math
from fractions import Fraction

from .core import z3


class NoValue(Exception):
    pass


def _expit(x):
    x = float(x)
    if x >= 0:
        return 1 / (1 + math.exp(-x)) if x < 700 else 1.0
    e = math.exp(x) if x > -700 else 0.0
    return e / (1 + e)


FUN = {'abs': abs, 'sqrt': lambda x: math.sqrt(x), 'expit': _expit,
       'log': lambda x: math.log(x), 'fl': lambda x: float(x)}


class Evaluator:
    def __init__(self, engine, values):
        self.values = values              # input name -> Python value
        self.byvar = {}
        for (nm, _), (a, r) in engine.uf.items():
            self.byvar[r.get_id()] = (nm, a)
        self.memo = {}
        self.keep = []

    def __call__(self, e):
        if not isinstance(e, z3.ExprRef):
            return e
        k = e.get_id()
        if k in self.memo:
            return self._out(self.memo[k])
        # iterative post-order to avoid deep recursion
        stack = [e]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in self.memo:
                stack.pop()
                continue
            if i in self.byvar:
                need = [self.byvar[i][1]]
            else:
                need = t.children()
            todo = [c for c in need if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            self.keep.append(t)
            bad = [self.memo[c.get_id()] for c in need
                   if isinstance(self.memo[c.get_id()], NoValue)]
            try:
                if bad and t.decl().kind() != z3.Z3_OP_ITE:
                    raise bad[0]
                self.memo[i] = self._ev(t, need)
            except NoValue as ex:
                self.memo[i] = ex
        return self._out(self.memo[k])

    @staticmethod
    def _out(v):
        if isinstance(v, NoValue):
            raise v
        return v

    def _ev(self, t, need):
        i = t.get_id()
        v = [self.memo[c.get_id()] for c in need]
        if i in self.byvar:
            try:
                return Fraction(FUN[self.byvar[i][0]](v[0]))
            except (ValueError, OverflowError):
                raise NoValue('%s(%s)' % (self.byvar[i][0], v[0]))
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = t.decl().kind()
        if z3.is_const(t) and d == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n in self.values:
                x = self.values[n]
                return Fraction(x) if z3.is_real(t) else x
            raise NoValue('free variable ' + n)
        o = z3
        if d == o.Z3_OP_ADD:
            return sum(v)
        if d == o.Z3_OP_SUB:
            r = v[0]
            for x in v[1:]:
                r = r - x
            return r
        if d == o.Z3_OP_MUL:
            r = v[0]
            for x in v[1:]:
                r = r * x
            return r
        if d == o.Z3_OP_UMINUS:
            return -v[0]
        if d == o.Z3_OP_DIV:
            if v[1] == 0:
                raise NoValue('division by zero')
            return Fraction(v[0]) / v[1]
        if d in (o.Z3_OP_IDIV, o.Z3_OP_MOD):
            a, b = v
            if b == 0:
                raise NoValue('division by zero')
            q = a // b if b > 0 else -(a // -b)
            return q if d == o.Z3_OP_IDIV else a - b * q
        if d == o.Z3_OP_POWER:
            return Fraction(v[0]) ** int(v[1])
        if d == o.Z3_OP_TO_REAL:
            return Fraction(v[0])
        if d == o.Z3_OP_TO_INT:
            return math.floor(v[0])
        if d == o.Z3_OP_IS_INT:
            return Fraction(v[0]).denominator == 1
        if d == o.Z3_OP_ITE:
            if isinstance(v[0], NoValue):
                raise v[0]
            return v[1] if v[0] else v[2]
        if d == o.Z3_OP_NOT:
            return not v[0]
        if d == o.Z3_OP_AND:
            return all(v)
        if d == o.Z3_OP_OR:
            return any(v)
        if d == o.Z3_OP_XOR:
            return bool(v[0]) != bool(v[1])
        if d == o.Z3_OP_IMPLIES:
            return (not v[0]) or v[1]
        if d == o.Z3_OP_EQ:
            return v[0] == v[1]
        if d == o.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        if d == o.Z3_OP_LE:
            return v[0] <= v[1]
        if d == o.Z3_OP_LT:
            return v[0] < v[1]
        if d == o.Z3_OP_GE:
            return v[0] >= v[1]
        if d == o.Z3_OP_GT:
            return v[0] > v[1]
        raise NoValue('operator %s' % t.decl())
