"""Identities between rational functions, decided by normal forms.

A z3 real term becomes a coefficient times a product of powers of polynomials
over its atoms (variables, and terms that are not arithmetic).  Squares of
roots and of absolute values are replaced by what they are.  Two terms whose
difference normalises to zero are equal for all values for which the
denominators, by which the code divided, are not zero.

Nested quotients are first treated as atoms (equal ones by their own normal
forms); only when that does not show the identity are they expanded, one level
more at a time.
"""
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 4000
ONE = Fraction(1)


class Ring:
    def __init__(self, squares):
        self.squares = squares      # atom id -> z3 term of its square
        self.sqratio = {}
        self.memo = {}
        self.keep = []
        self.polys = {}             # key -> polynomial
        self.opaque = {}            # key of a quotient -> atom
        self.linear = {}            # atom -> z3 term it equals
        self.use_linear = False

    # polynomials: {monomial (sorted tuple of (atom, power)): coefficient}
    def padd(self, p, q, f=1):
        if len(p) + len(q) > LIMIT:
            raise TooBig()
        r = dict(p)
        for m, c in q.items():
            c = r.get(m, 0) + f * c
            if c:
                r[m] = c
            else:
                r.pop(m, None)
        return r

    def pmul(self, p, q):
        if len(p) * len(q) > 20 * LIMIT:
            raise TooBig()
        r = {}
        todo = []
        for m, c in p.items():
            for n, d in q.items():
                k, red = self.mono(m, n)
                if red is not None:
                    todo.append((k, red, c * d))
                    continue
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
            if len(r) > LIMIT:
                raise TooBig()
        for k, red, c in todo:
            r = self.padd(r, self.pmul({k: ONE}, red), c)
        return r

    def mono(self, m, n):
        d = dict(m)
        red = None
        for a, e in n:
            d[a] = d.get(a, 0) + e
        for a in list(d):
            if d[a] >= 2 and a in self.squares:
                e = d.pop(a)
                if e % 2:
                    d[a] = 1
                s = self.square_poly(a)
                for _ in range(e // 2):
                    red = s if red is None else self.pmul(red, s)
        return tuple(sorted(d.items())), red

    def square(self, a):
        if a not in self.sqratio:
            self.sqratio[a] = self.ratio(self.squares[a], 99)
        return self.sqratio[a]

    def square_poly(self, a):
        c, f = self.square(a)
        if any(e < 0 for e in f.values()):
            raise TooBig()
        return self.expand(c, f)

    # quotients: (coefficient, {key of a polynomial: exponent}); a key is
    # the set of the terms of a polynomial with a leading coefficient of 1
    def expand(self, c, f):
        p = {(): c} if c else {}
        for k, e in f.items():
            for _ in range(e):
                p = self.pmul(p, self.polys[k])
        return p

    def atom(self, a):
        p = {((a, 1),): ONE}
        k = frozenset(p.items())
        self.polys[k] = p
        return ONE, {k: 1}

    def of_poly(self, p):
        if not p:
            return Fraction(0), {}
        if len(p) == 1:
            (m, c), = p.items()
            f = {}
            for a, e in m:
                (k, _), = self.atom(a)[1].items()
                f[k] = e
            return c, f
        # common monomial
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items()
                          if a in d}
            if not common:
                break
        f = {}
        if common:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in common.items():
                    d[a] -= e
                    if not d[a]:
                        del d[a]
                q[tuple(sorted(d.items()))] = c
            p = q
            for a, e in common.items():
                (k, _), = self.atom(a)[1].items()
                f[k] = e
        lead = p[max(p)]
        p = {m: c / lead for m, c in p.items()}
        k = frozenset(p.items())
        self.polys[k] = p
        f[k] = 1
        return lead, f

    def times(self, a, b):
        c = a[0] * b[0]
        if not c:
            return Fraction(0), {}
        f = dict(a[1])
        for k, e in b[1].items():
            e += f.get(k, 0)
            if e:
                f[k] = e
            else:
                f.pop(k, None)
        if self.squares:
            for k in list(f):
                if len(k) == 1 and abs(f.get(k, 0)) >= 2:
                    (m, _), = k
                    if len(m) == 1 and m[0][0] in self.squares:
                        e = f.pop(k)
                        h = int(e / 2)
                        if e - 2 * h:
                            f[k] = e - 2 * h
                        s = self.square(m[0][0])
                        r = c, f
                        for _ in range(abs(h)):
                            r = self.times(r, s if h > 0 else self.inv(s))
                        c, f = r
        return c, f

    def inv(self, a):
        if not a[0]:
            raise TooBig()
        return 1 / a[0], {k: -e for k, e in a[1].items()}

    def plus(self, rs):
        rs = [r for r in rs if r[0]]
        if not rs:
            return Fraction(0), {}
        if len(rs) == 1:
            return rs[0]
        # like terms
        like = {}
        for c, f in rs:
            k = frozenset(f.items())
            if k in like:
                like[k] = (like[k][0] + c, f)
            else:
                like[k] = (c, f)
        rs = [r for r in like.values() if r[0]]
        if not rs:
            return Fraction(0), {}
        if len(rs) == 1:
            return rs[0]
        keys = set()
        for _, f in rs:
            keys.update(f)
        g = {k: min(f.get(k, 0) for _, f in rs) for k in keys}
        total = {}
        for c, f in rs:
            rest = {k: f.get(k, 0) - g[k] for k in keys
                    if f.get(k, 0) != g[k]}
            total = self.padd(total, self.expand(c, rest))
        return self.times((ONE, {k: e for k, e in g.items() if e}),
                          self.of_poly(total))

    def ratio(self, e, depth):
        k = e.get_id(), depth
        if k not in self.memo:
            self.memo[k] = self._ratio(e, depth)
            self.keep.append(e)
        return self.memo[k]

    def _ratio(self, e, depth):
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(),
                            e.denominator_as_long()), {}
        if z3.is_int_value(e):
            return Fraction(e.as_long()), {}
        if self.use_linear and e.get_id() in self.linear:
            return self.ratio(self.linear[e.get_id()], depth)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return self.plus([self.ratio(c, depth) for c in ch])
        if k == z3.Z3_OP_SUB:
            return self.plus([self.ratio(ch[0], depth)] + [
                self.neg(self.ratio(c, depth)) for c in ch[1:]])
        if k == z3.Z3_OP_UMINUS:
            return self.neg(self.ratio(ch[0], depth))
        if k == z3.Z3_OP_MUL:
            r = self.ratio(ch[0], depth)
            for c in ch[1:]:
                r = self.times(r, self.ratio(c, depth))
            return r
        if k == z3.Z3_OP_DIV:
            d = max(depth - 1, 0)
            r = self.times(self.ratio(ch[0], d),
                           self.inv(self.ratio(ch[1], d)))
            if depth > 0 or all(e > 0 or len(p) == 1
                                for p, e in r[1].items()):
                return r
            key = frozenset(r[1].items())
            if key not in self.opaque:
                self.opaque[key] = -1 - len(self.opaque)
            return self.times((r[0], {}), self.atom(self.opaque[key]))
        if k == z3.Z3_OP_POWER and (z3.is_int_value(ch[1]) or
                                    z3.is_rational_value(ch[1])):
            p = ch[1].as_fraction() if z3.is_rational_value(ch[1]) else \
                Fraction(ch[1].as_long())
            if p.denominator == 1 and 0 <= p <= 8:
                r = ONE, {}
                for _ in range(int(p)):
                    r = self.times(r, self.ratio(ch[0], depth))
                return r
        if k == z3.Z3_OP_TO_REAL:
            # sums and products of integers under the conversion
            c = ch[0]
            if c.num_args() and c.decl().kind() in (
                    z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL,
                    z3.Z3_OP_UMINUS):
                return self._ratio_int(c, depth)
        if not z3.is_arith(e):
            raise TooBig()
        self.keep.append(e)
        return self.atom(e.get_id())

    @staticmethod
    def neg(r):
        return -r[0], r[1]

    def _ratio_int(self, e, depth):
        parts = [self.ratio(z3.simplify(z3.ToReal(c)) if c.num_args() == 0
                            else z3.ToReal(c), depth) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            return self.neg(parts[0])
        if k == z3.Z3_OP_MUL:
            r = parts[0]
            for p in parts[1:]:
                r = self.times(r, p)
            return r
        if k == z3.Z3_OP_SUB:
            parts = parts[:1] + [self.neg(p) for p in parts[1:]]
        return self.plus(parts)

    def key(self, e):
        """a key equal terms may share; equal keys mean equal terms"""
        try:
            c, f = self.ratio(e, 0)
            return c, frozenset(f.items())
        except (TooBig, RecursionError):
            return None

    def identical(self, a, b, depths=(0, 1, 2, 99)):
        for d in depths:
            try:
                if not self.plus([self.ratio(a, d),
                                  self.neg(self.ratio(b, d))])[0]:
                    return True
            except (TooBig, RecursionError):
                continue
        return False


def identical(a, b, E):
    """True if a == b holds as an identity; False if that is not shown"""
    R = E.ring
    if R is None:
        R = E.ring = Ring(E.squares)
    if R.identical(a, b):
        return True
    if E.linear:
        S = E.ring2
        if S is None:
            S = E.ring2 = Ring(E.squares)
            S.linear, S.use_linear = E.linear, True
        return S.identical(a, b)
    return False


# ---------------------------------------------------------------------------
# signs
# ---------------------------------------------------------------------------
FLIP = {1: -1, -1: 1}


class Signs:
    """decides comparisons of rational functions by their normal forms

    A factor has a known sign if its terms all have the same one, given the
    bounds of the atoms; the sign of the product of the other factors is
    looked up among those the path condition states.  Signs: (s, strict)
    with s = 1 (>= 0) or -1 (<= 0).
    """

    def __init__(self, E, ring):
        self.E, self.R = E, ring
        self.seen = 0
        self.facts = {}         # frozenset of keys -> set of (s, strict)
        self.polysign = {}
        self.depths = (0, 99)

    def of_poly(self, k):
        """sign of a factor by its terms, or None"""
        if k in self.polysign:
            return self.polysign[k]
        s, strict = None, False
        for m, c in k:
            t, st = (1 if c > 0 else -1), True
            for a, e in m:
                if e % 2:
                    b = self.atom(a)
                    if b is None:
                        t = None
                        break
                    t *= b[0]
                    st = st and b[1]
                else:
                    st = False
            if t is None or (s is not None and t != s):
                s = None
                break
            s = t
            strict = strict or st
        r = None if s is None else (s, strict)
        self.polysign[k] = r
        return r

    def atom(self, a):
        e = self.terms().get(a)
        if e is None:
            return None
        lo, hi = self.E.bounds.of(e)[:2]
        if lo > 0:
            return 1, True
        if lo == 0:
            return 1, False
        if hi < 0:
            return -1, True
        if hi == 0:
            return -1, False
        return None

    def terms(self):
        keep = self.R.keep
        d = self.__dict__.setdefault('_terms', {})
        for e in keep[self.__dict__.get('_nt', 0):]:
            d[e.get_id()] = e
        self._nt = len(keep)
        return d

    def split(self, r):
        """(known sign, strict, unknown factors) of a ratio"""
        c, f = r
        if not c:
            return 0, True, frozenset()
        s, strict, rest = (1 if c > 0 else -1), True, []
        for k, e in f.items():
            odd = e.denominator != 1 or e % 2 if isinstance(
                e, Fraction) else e % 2
            g = self.of_poly(k)
            if not odd:
                # not zero as a denominator
                strict = strict and (e < 0 or (g is not None and g[1]))
                continue
            if g is None:
                rest.append(k)
            else:
                s *= g[0]
                strict = strict and (g[1] or e < 0)
        return s, strict, frozenset(rest)

    def ratio(self, a, b, d):
        R = self.R
        return R.plus([R.ratio(a, d), R.neg(R.ratio(b, d))])

    def update(self):
        pc = self.E.pc
        while self.seen < len(pc):
            c = pc[self.seen]
            self.seen += 1
            self.learn(c, True)

    def learn(self, c, v):
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(c.arg(0), not v)
        if (k == z3.Z3_OP_AND and v) or (k == z3.Z3_OP_OR and not v):
            for d in c.children():
                self.learn(d, v)
            return
        w = self.norm(c, v)
        if w is None or w[3] == 'eq' or self.linear(c):
            return
        a, b, strict, _ = w
        # a >= b or a > b
        for d in self.depths:
            try:
                s, _, rest = self.split(self.ratio(a, b, d))
            except (TooBig, RecursionError):
                continue
            if rest and s:
                self.facts.setdefault(rest, set()).add((s, strict))

    def linear(self, c):
        from . import core
        return core.linear_cond(c)

    @staticmethod
    def norm(c, v):
        """c (or its negation) as a >= b / a > b: (a, b, strict, kind)"""
        k = c.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT,
                     z3.Z3_OP_EQ) or not z3.is_real(c.arg(0)):
            return None
        a, b = c.arg(0), c.arg(1)
        if k == z3.Z3_OP_EQ:
            return a, b, not v, 'eq'
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
        if not v:
            a, b, strict = b, a, not strict
        return a, b, strict, 'cmp'

    def decide(self, c):
        """True, False or None (not shown)"""
        k = c.decl().kind()
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if k == z3.Z3_OP_NOT:
            r = self.decide(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            rs = []
            for d in c.children():
                r = self.decide(d)
                if r is stop:
                    return stop
                rs.append(r)
            return None if None in rs else not stop
        w = self.norm(c, True)
        if w is None or w[3] == 'eq':
            return None
        a, b, strict, _ = w
        for d in self.depths:
            try:
                s, st, rest = self.split(self.ratio(a, b, d))
            except (TooBig, RecursionError):
                continue
            r = self.verdict(s, st, rest, strict)
            if r is not None:
                return r
        return None

    def verdict(self, s, st, rest, strict):
        if s == 0:
            return not strict
        if rest:
            for f, fst in self.facts.get(rest, ()):
                r = self.verdict(s * f, st and fst, (), strict)
                if r is not None:
                    return r
            return None
        if s > 0:
            return True if st or not strict else None
        return False if st or strict else None


def decide(c, E):
    """comparisons shown or refuted by normal forms; else None"""
    if not poly_cond(c):
        return None
    if E.signs is None:
        E.signs = []
    E.bounds.update(E.pc)
    if not E.signs:
        if E.ring is None:
            E.ring = Ring(E.squares)
        E.signs.append(Signs(E, E.ring))
    if E.linear and len(E.signs) < 2:
        if E.ring2 is None:
            E.ring2 = Ring(E.squares)
            E.ring2.linear, E.ring2.use_linear = E.linear, True
        E.signs.append(Signs(E, E.ring2))
    for S in E.signs:
        S.update()
        r = S.decide(c)
        if r is not None:
            return r
    return None


def poly_cond(c):
    k = c.decl().kind()
    if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
        return any(poly_cond(d) for d in c.children())
    return k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and \
        z3.is_real(c.arg(0))
