"""Bounds of real terms by interval arithmetic over the bounds of variables.

Decides comparisons such as "is this denominator zero?" for the large rational
expressions of iterative algorithms, which no solver needs to see.
"""
from fractions import Fraction
import math

import z3

INF = math.inf


def _val(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def _round(x, up):
    """outward rounding keeps the numbers short"""
    if not isinstance(x, Fraction) or x.denominator.bit_length() < 200 and \
            x.numerator.bit_length() < 200:
        return x
    if x == 0:
        return x
    k = 80 - (x.numerator.bit_length() - x.denominator.bit_length())
    s = Fraction(2) ** k
    y = x * s
    return Fraction(math.ceil(y) if up else math.floor(y)) / s


def _mul1(a, b):
    if a == 0 or b == 0:
        return Fraction(0)
    return a * b if isinstance(a, Fraction) and isinstance(b, Fraction) else (
        INF if (a > 0) == (b > 0) else -INF)


def _add1(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    return a if not isinstance(a, Fraction) else b


class Bounds:
    def __init__(self):
        self.var = {}           # id -> [lo, hi, lo strict, hi strict]
        self.seen = 0
        self.memo = {}
        self.keep = []

    def update(self, pc):
        n = self.seen
        if n < len(pc):
            self.seen = len(pc)
            for c in pc[n:]:
                self._learn(c, True)

    def _learn(self, c, pos):
        if not z3.is_app(c):
            return
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self._learn(c.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
            for d in c.children():
                self._learn(d, pos)
            return
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                     z3.Z3_OP_EQ):
            return
        a, b = c.arg(0), c.arg(1)
        if not z3.is_arith(a):
            return
        v, w = _val(a), _val(b)
        if (v is None) == (w is None):
            return
        if v is not None:
            a, w = b, v
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE,
                 z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT
                 }.get(k, k)
        if not pos:
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT,
                 z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE
                 }.get(k, None)
        if k is None:
            return
        i = a.get_id()
        self.keep.append(a)
        t = self.var.setdefault(i, [-INF, INF, False, False])
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            s = k == z3.Z3_OP_GT
            if w > t[0] or w == t[0] and s:
                t[0], t[2] = w, s
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ):
            s = k == z3.Z3_OP_LT
            if w < t[1] or w == t[1] and s:
                t[1], t[3] = w, s

    def of(self, e):
        """(lo, hi, lo strict, hi strict)"""
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._of(e)
            t = self.var.get(k)
            if t is not None:
                lo = max((r[0], r[2]), (t[0], t[2]))
                hi = min((r[1], not r[3]), (t[1], not t[3]))
                r = (lo[0], hi[0], lo[1], not hi[1])
            r = (_round(r[0], False), _round(r[1], True), r[2], r[3])
            self.memo[k] = r
            self.keep.append(e)
        return r

    def _of(self, e):
        v = _val(e)
        if v is not None:
            return v, v, False, False
        none = (-INF, INF, False, False)
        if not z3.is_app(e) or not z3.is_arith(e):
            return none
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self._plus(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(ch[0])
            for c in ch[1:]:
                r = self._plus(r, self._neg(self.of(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return self._neg(self.of(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = None
            ids = [c.get_id() for c in ch]
            done = set()
            for c in ch:
                if c.get_id() in done:
                    continue
                done.add(c.get_id())
                n = ids.count(c.get_id())
                t = self._pow(self.of(c), n)
                r = t if r is None else self._times(r, t)
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.of(ch[0]), self.of(ch[1])
            if b[0] > 0 or b[0] == 0 and b[2]:
                lo = Fraction(0) if b[1] == INF else 1 / b[1]
                hi = INF if b[0] == 0 else 1 / b[0]
                return self._times(a, (lo, hi, b[1] == INF or b[3], b[2]))
            if b[1] < 0 or b[1] == 0 and b[3]:
                m = self._neg(b)
                lo = Fraction(0) if m[1] == INF else 1 / m[1]
                hi = INF if m[0] == 0 else 1 / m[0]
                return self._neg(self._times(
                    a, (lo, hi, m[1] == INF or m[3], m[2])))
            return none
        if k == z3.Z3_OP_POWER:
            n = _val(ch[1])
            if n is not None and n.denominator == 1 and 0 < n < 9:
                return self._pow(self.of(ch[0]), int(n))
            return none
        if k == z3.Z3_OP_ITE:
            d = self.decide(ch[0])
            if d is not None:
                return self.of(ch[1] if d else ch[2])
            a, b = self.of(ch[1]), self.of(ch[2])
            lo = min((a[0], a[2]), (b[0], b[2]))
            hi = max((a[1], not a[3]), (b[1], not b[3]))
            return lo[0], hi[0], lo[1], not hi[1]
        if k == z3.Z3_OP_TO_REAL:
            return self.of(ch[0])
        return none

    @staticmethod
    def _neg(a):
        return -a[1], -a[0], a[3], a[2]

    @staticmethod
    def _plus(a, b):
        return (_add1(a[0], b[0]), _add1(a[1], b[1]), a[2] or b[2],
                a[3] or b[3])

    def _pow(self, a, n):
        if n == 1:
            return a
        if n % 2 == 0 and a[0] < 0 < a[1]:
            m = max(-a[0], a[1])
            r = (Fraction(0), m, False, False)
            h = m
            for _ in range(n - 1):
                h = _mul1(h, m)
            return Fraction(0), h, False, False
        r = a
        for _ in range(n - 1):
            r = self._times(r, a)
        return r

    @staticmethod
    def _times(a, b):
        c = []
        for x, xs in ((a[0], a[2]), (a[1], a[3])):
            for y, ys in ((b[0], b[2]), (b[1], b[3])):
                # the product is attained unless an end is open; a closed
                # zero attains zero whatever the other end is
                if x == 0 and y == 0:
                    s = xs and ys
                elif x == 0:
                    s = xs
                elif y == 0:
                    s = ys
                else:
                    s = xs or ys
                c.append((_mul1(x, y), s))
        lo = min(c, key=lambda t: (t[0], t[1]))
        hi = max(c, key=lambda t: (t[0], not t[1]))
        return lo[0], hi[0], lo[1], hi[1]

    # -- comparisons -----------------------------------------------------
    def decide(self, c):
        """True / False if the bounds settle the condition, else None"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not z3.is_app(c):
            return None
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            d = self.decide(c.arg(0))
            return None if d is None else not d
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = [self.decide(d) for d in c.children()]
            stop = k == z3.Z3_OP_OR
            if stop in r:
                return stop
            return None if None in r else not stop
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT,
                     z3.Z3_OP_EQ) or not z3.is_arith(c.arg(0)):
            return None
        a, b = self.of(c.arg(0)), self.of(c.arg(1))
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
            k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
        apart = a[1] < b[0] or a[1] == b[0] and (a[3] or b[2])   # a < b
        over = a[0] > b[1] or a[0] == b[1] and (a[2] or b[3])    # a > b
        if abs(a[1]) == INF and a[1] == b[0]:
            apart = False
        if abs(a[0]) == INF and a[0] == b[1]:
            over = False
        if k == z3.Z3_OP_EQ:
            return False if apart or over else None
        if k == z3.Z3_OP_LT:
            if apart:
                return True
            return False if over or a[0] >= b[1] and abs(a[0]) != INF \
                else None
        if apart or a[1] <= b[0] and abs(a[1]) != INF:
            return True
        return False if over else None
