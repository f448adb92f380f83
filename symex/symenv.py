"""The symbolic environment of a harness and the exploration of one case."""
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as RN

from . import core, nparr, npfun, loader, npshim, stubs, neval, poly, jsonshim, \
    textshim
from .core import (z3, Sym, SymBool, SymInt, SymReal, SymStr, NInt, Engine,
                   Unsupported, PathAbort, Inconclusive, zbool, zreal, zint,
                   mkbool, is_special, isnan, ite, is_realish)
from .nparr import SymArray, RecArray, norm
from .harness import (BaseEnv, StopHarness, AssumptionFailed, REPO, rank_str)


def rec_like(x):
    return isinstance(x, RecArray)


class Mismatch(Exception):
    def __init__(self, why):
        self.why = why


class SymEnv(textshim.SymText, BaseEnv):
    sym = True

    def __init__(self, E, report):
        self.E = E
        self.report = report
        self.observed = []
        self.cfg_hooks = {}
        rnd = stubs.SymRandomModule()
        E.np_random = rnd
        self.np = npshim.Numpy(rnd, self._genfromtxt)
        self.optimizer = stubs.Optimizer(self)
        shims = {'numpy': self.np, 'math': npshim.Math()}
        self.ld = loader.Loader(shims)
        shims['scipy'] = stubs.make_scipy(self, self.optimizer)
        shims['sklearn'] = stubs.make_sklearn(self.ld)
        shims['collections'] = loader.collections_shim()
        self.json = shims['json'] = jsonshim.Json(self)
        for n in ('exp_recsys_util', 'exp_recsys_sp', 'exp_recsys_if',
                  'exp_recsys_fold_merge', 'stats_recsys'):
            self.ld.scripts[n] = os.path.join(loader.REPO, 'scripts',
                                              n + '.py')
        self.shims = shims

    def _genfromtxt(self, *a, **k):
        h = self.cfg_hooks.get('genfromtxt')
        if h is None:
            raise Unsupported('np.genfromtxt on a real file')
        return h(*a, **k)

    def load(self, name):
        return self.ld.load(name)

    @property
    def sparse(self):
        return self.shims['scipy'].sparse

    def is_bool(self, x):
        return isinstance(x, (bool, SymBool))

    def jsonable(self, x):
        if isinstance(x, dict):
            return all(isinstance(k, (str, int, float)) and self.jsonable(v)
                       for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return all(self.jsonable(v) for v in x)
        if isinstance(x, (SymInt, SymBool)):
            return not x.np
        if isinstance(x, NInt):
            return False
        return x is None or isinstance(x, (str, int, float, SymReal,
                                           SymStr, Fraction))

    # -- inputs --------------------------------------------------------------
    def int(self, name, lo, hi):
        new = name not in self.E.inputs
        v = self.E.input_int(name)
        if new:
            self.E.add(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def real(self, name, lo=-100, hi=100, strict=False):
        new = name not in self.E.inputs
        v = self.E.input_real(name)
        if new:
            self.E.add(z3.And(v > lo, v < hi) if strict else
                       z3.And(v >= lo, v <= hi))
        return SymReal(v)

    def str(self, name):
        new = name not in self.E.inputs
        v = self.E.input_int(name)
        if new:
            self.E.add(z3.And(v >= 0, v <= 99999))
        return SymStr(v)

    def bool(self, name):
        return SymBool(self.E.input_bool(name))

    def expit(self, x):
        return core.uf_expit(norm1(x))

    def log(self, x):
        return core.uf_log(norm1(x))

    def choice(self, name, options):
        return self.E.choose(name, options)

    # -- control -------------------------------------------------------------
    def assume(self, c):
        self.E.assume(zbool(norm1(c)))

    def If(self, c, a, b):
        return ite(norm1(c), norm1(a), norm1(b))

    def And(self, *c):
        return mkbool(z3.And([zbool(norm1(x)) for x in c]))

    def Or(self, *c):
        return mkbool(z3.Or([zbool(norm1(x)) for x in c]))

    def Not(self, c):
        return core.bnot(norm1(c))

    def Implies(self, a, b):
        return mkbool(z3.Implies(zbool(norm1(a)), zbool(norm1(b))))

    # -- checks --------------------------------------------------------------
    def check(self, c, label, why=''):
        c = norm1(c)
        self._oblige(zbool(c), label, why=why)
        return not z3.is_false(zbool(c))

    def eq(self, a, b, label):
        self.observe('=' + label, a)
        conds = []
        try:
            deq(a, b, conds)
        except Mismatch as m:
            return self._oblige(z3.BoolVal(False), label, why=m.why)
        cs, margins = [], []
        for kind, x, y in conds:
            if kind == 'real':
                r = self._identity(x, y)
                if r is not None:
                    cs.append(z3.BoolVal(r))
                    continue
                cs.append(x == y)
                margins.append(z3.Or(x - y >= Fraction(1, 8),
                                     y - x >= Fraction(1, 8)))
            else:
                cs.append(x == y)
                margins.append(x != y)
        if not cs:
            return self._oblige(z3.BoolVal(True), label)
        self._oblige(z3.And(cs), label,
                     margin=z3.Or(margins) if margins else None)

    def le(self, a, b, label):
        a, b = norm1(a), norm1(b)
        c = a <= b
        mar = None
        if isinstance(c, SymBool):
            mar = zreal(a) >= zreal(b) + Fraction(1, 8)
        self._oblige(zbool(c), label, margin=mar)

    def close(self, a, b):
        conds = []
        try:
            deq(a, b, conds)
        except Mismatch:
            return False
        cs = []
        for kind, x, y in conds:
            r = self._identity(x, y) if kind == 'real' else None
            cs.append(x == y if r is None else z3.BoolVal(r))
        return mkbool(z3.simplify(z3.And(cs)))

    def observe(self, name, v):
        self.observed.append((name, freeze(v)))

    def diff_check(self, fun, grad, point, label):
        E = self.E
        x = point.copy()
        g = grad(point.copy())
        if not isinstance(g, SymArray) or g.shape != x.shape:
            return self._oblige(z3.BoolVal(False), label,
                                why='gradient shape')
        f = norm1(fun(point.copy()))
        f = zreal(f)
        memo = {}
        for i in range(x.size):
            xi = zreal(x.a[i])
            d = core.diff(f, xi)
            self._real_eq(zreal(norm(g.a[i])), d, label + '[%d]' % i)

    def _identity(self, a, b):
        """True / False if decided by normal forms, else None"""
        if a.eq(b):
            return True
        d = z3.simplify(a - b)
        if z3.is_rational_value(d):
            return d.numerator_as_long() == 0
        if poly.identical(a, b, self.E):
            return True
        return None

    def _real_eq(self, a, b, label):
        r = self._identity(a, b)
        if r is not None:
            return self._oblige(z3.BoolVal(r), label)
        self._oblige(a == b, label, margin=z3.Or(
            a - b >= Fraction(1, 8), b - a >= Fraction(1, 8)))

    def _oblige(self, c, label, why='', margin=None):
        E = self.E
        E.stats.obligations += 1
        c = z3.simplify(c)
        if z3.is_true(c):
            E.stats.discharged += 1
            E.stats.syntactic += 1
            return True
        if not core.linear_cond(c):
            E.bounds.update(E.pc)
            if E.bounds.decide(c) or (
                    E.use_signs and poly.decide(c, E)):
                E.stats.discharged += 1
                E.stats.syntactic += 1
                return True
        neg = z3.simplify(z3.Not(c))
        found = None
        if not core.linear_cond(c) and core.dag_size(c, core.BIG) > core.BIG:
            # a short try, then concrete inputs that refute it
            E.solver.set('timeout', min(E.timeout_ms, 3000))
            r = E._check(neg)
            E.solver.set('timeout', E.timeout_ms)
            if r != z3.unsat:
                found = refuting(E, c)
                if found is None:       # does any input get here?
                    self.report.candidate(self, label, why, neg, margin, ())
                    return None
                if not found:
                    r = E._check(neg)
        else:
            r = E._check(neg)
        if found:
            self.report.candidate(self, label, why, neg, margin, found)
            return False
        if r != z3.unsat and E.hard:
            r = E._check(neg, *E.hard)
        if r == z3.unknown:
            r = self._retry(neg)
        if r == z3.unsat:
            E.stats.discharged += 1
            return True
        if r == z3.unknown:
            # undecided, unless an input that refutes it turns up
            self.report.candidate(self, label, 'solver: unknown', neg,
                                  margin)
            return None
        self.report.candidate(self, label, why, neg, margin)
        # go on under the assumption that it holds
        if core.dag_size(c, core.BIG) <= core.BIG:
            E.assume(c)
        return False

    def _retry(self, neg):
        E = self.E
        for tac in ('default', 'qfnra-nlsat'):
            s = z3.Solver() if tac == 'default' else \
                z3.Then('simplify', 'purify-arith', 'propagate-values',
                        'solve-eqs', 'qfnra-nlsat').solver()
            s.set('timeout', E.timeout_ms)
            for p in E.pc:
                s.add(p)
            s.add(neg)
            t = time.time()
            E.stats.queries += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            E.stats.solver_s += time.time() - t
            if r != z3.unknown:
                return r
        return z3.unknown


def norm1(c):
    if isinstance(c, SymArray):
        c = c._one()
    return norm(c)


# ---------------------------------------------------------------------------
# structural equality
# ---------------------------------------------------------------------------
def deq(a, b, out):
    if isinstance(a, RecArray) or isinstance(b, RecArray):
        if not (isinstance(a, RecArray) and isinstance(b, RecArray)):
            raise Mismatch('structured vs plain array')
        if tuple(a.dtype.names) != tuple(b.dtype.names) or \
                a.shape != b.shape:
            raise Mismatch('structure of arrays')
        for f in a.dtype.names:
            deq(a[f], b[f], out)
        return
    arr = (SymArray, RN.ndarray)
    if isinstance(a, arr) or isinstance(b, arr):
        a, b = nparr.asarr(a), nparr.asarr(b)
        if a.shape != b.shape:
            raise Mismatch('shape %s vs %s' % (a.shape, b.shape))
        for x, y in zip(a.a.reshape(-1), b.a.reshape(-1)):
            deq(x, y, out)
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Mismatch('length %d vs %d' % (len(a), len(b)))
        for x, y in zip(a, b):
            deq(x, y, out)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            raise Mismatch('keys %s vs %s' % (list(a), list(b)))
        for k in a:
            if k not in b:
                raise Mismatch('key %s' % (k,))
            deq(a[k], b[k], out)
        return
    a, b = norm(a), norm(b)
    if isinstance(a, (SymStr, str)) or isinstance(b, (SymStr, str)):
        if isinstance(a, str) and isinstance(b, str):
            if a != b:
                raise Mismatch('%r vs %r' % (a, b))
            return
        if not (isinstance(a, (SymStr, str)) and
                isinstance(b, (SymStr, str))):
            raise Mismatch('string vs %s' % type(b).__name__)
        f = [x.e if isinstance(x, SymStr) else z3.IntVal(core.str_rank(x))
             for x in (a, b)]
        out.append(('int', f[0], f[1]))
        return
    if not core._num(a) or not core._num(b):
        if (a is None) != (b is None) or not (a is b or a == b):
            raise Mismatch('%r vs %r' % (a, b))
        return
    if isinstance(a, complex) or isinstance(b, complex):
        if a != b:
            raise Mismatch('%r vs %r' % (a, b))
        return
    if is_special(a) or is_special(b):
        same = is_special(a) and is_special(b) and (
            (isnan(a) and isnan(b)) or a == b)
        if not same:
            raise Mismatch('%r vs %r' % (a, b))
        return
    if is_realish(a) or is_realish(b):
        out.append(('real', zreal(a), zreal(b)))
    else:
        x, y = zint(a), zint(b)
        out.append(('int', x, y))


def freeze(v):
    if isinstance(v, SymArray):
        return ('arr', v.shape, [norm(x) for x in v.a.reshape(-1)])
    if isinstance(v, RN.ndarray) and v.dtype.names is None:
        return ('arr', v.shape, v.ravel().tolist())
    if isinstance(v, RecArray):
        return ('rec', [(f, freeze(v[f])) for f in v.dtype.names])
    if isinstance(v, dict):
        return ('dict', [(k, freeze(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return ('list', [freeze(x) for x in v])
    return norm(v)


def thaw(v, ev):
    """value of a frozen observation, in the form of harness.plain"""
    if isinstance(v, tuple) and v and v[0] == 'arr':
        return [list(v[1]), [thaw(x, ev) for x in v[2]]]
    if isinstance(v, tuple) and v and v[0] == 'rec':
        return [[f, thaw(x, ev)] for f, x in v[1]]
    if isinstance(v, tuple) and v and v[0] == 'dict':
        return sorted([str(thaw(k, ev)), thaw(x, ev)] for k, x in v[1])
    if isinstance(v, tuple) and v and v[0] == 'list':
        return [thaw(x, ev) for x in v[1]]
    if isinstance(v, SymStr):
        return rank_str(ev(v.e))
    if isinstance(v, SymReal):
        return float(v.v) if v.const else float(ev(v.v))
    if isinstance(v, SymInt):
        return int(ev(v.e))
    if isinstance(v, SymBool):
        return bool(ev(v.e))
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, NInt):
        return int(v)
    from .harness import plain
    return plain(v)


# ---------------------------------------------------------------------------
# one case
# ---------------------------------------------------------------------------
class Report:
    def __init__(self, check, case):
        self.check, self.case = check, case
        self.cands = []
        self.t_first = None
        self.ncand = {}
        self.nomodel = {}
        self.samples = []
        self.inconc = {}
        self.funcs = set()
        self.nsample = 0

    def inconclusive(self, why):
        why = str(why)[:200]
        self.inconc[why] = self.inconc.get(why, 0) + 1

    def candidate(self, env, label, why, neg, margin, models=None):
        key = label
        n = self.ncand.get(key, 0)
        self.ncand[key] = n + 1
        if n >= 4 or self.nomodel.get(key, 0) > 8:
            return
        E = env.E
        if models is not None:
            if models:
                self.cands.append(dict(label=label, why=str(why)[:300],
                                       models=dedupe(models)))
            else:
                self.nomodel[key] = self.nomodel.get(key, 0) + 1
                self.ncand[key] = n
                self.inconclusive('no input found for the path of %s' %
                                  label)
            return
        models = []
        base = [neg]
        tries = []
        if margin is not None:
            tries.append(base + [margin, spread(E)])
            tries.append(base + [margin])
        tries.append(base + [spread(E)])
        tries.append(base)
        E.solver.set('timeout', min(E.timeout_ms, 5000))
        for t in tries:
            try:
                r = E._check(*(t + E.hard))
            except Inconclusive:
                r = None
            if r == z3.sat:
                models.append(model_json(E, E.solver.model()))
            elif r != z3.unsat:
                break
        E.solver.set('timeout', E.timeout_ms)
        if len(models) < 2:
            # the same question without the facts about functions (roots,
            # logarithms, ...): the replay shows whether its answers count
            sol = z3.Solver()
            sol.set('timeout', 3000)
            for i, p in enumerate(E.pc):
                if i not in E.axioms:
                    sol.add(p)
            for t in tries[:1] + tries[-1:]:
                for k in range(3):
                    if sol.check(nice(E, 100 + k), *t) == z3.sat:
                        models.append(model_json(E, sol.model()))
                if sol.check(*t) == z3.sat:
                    models.append(model_json(E, sol.model()))
        if len(models) < 2:
            # inputs of this path at large: the replay tells
            models += [mj for mj, _ in guesses(E, 4)]
        if not models:
            # e.g. found by a fallback solver only
            self.inconclusive('no model for the refutation of %s' % label)
            self.nomodel[key] = self.nomodel.get(key, 0) + 1
            self.ncand[key] = n + (self.nomodel[key] > 8)
            return
        self.cands.append(dict(label=label, why=str(why)[:300],
                               models=dedupe(models)))

    def exception(self, env, ex):
        tb = traceback.format_exc(limit=-6)
        label = 'exception:%s' % type(ex).__name__
        n = self.ncand.get(label, 0)
        self.ncand[label] = n + 1
        if n >= 6:
            return
        try:
            m = env.E.get_model()
            if m is None:
                raise Inconclusive
        except (PathAbort, Inconclusive):
            self.inconclusive('exception on a path of unknown feasibility')
            return
        models = [model_json(env.E, m)]
        if env.E._check(spread(env.E)) == z3.sat:
            models.insert(0, model_json(env.E, env.E.solver.model()))
        self.cands.append(dict(label=label, why='%s: %s' % (
            type(ex).__name__, str(ex)[:200]), tb=tb,
            models=dedupe(models), exc=True))

    def sample(self, env, kind):
        """a concrete input of the current path, with what it must give"""
        E = env.E
        # without the facts about functions: the evaluator computes those
        sol = z3.Solver()
        sol.set('timeout', 3000)
        for i, p in enumerate(E.pc):
            if i not in E.axioms:
                sol.add(p)
        m = None
        for extra in (nice(E, self.nsample), spread(E), z3.BoolVal(True)):
            if sol.check(extra) == z3.sat:
                m = sol.model()
                break
        self.nsample += 1
        if m is None:
            g = guesses(E, 1)
            if not g:
                return
            mj = g[0][0]
        else:
            mj = model_json(E, m)
        vals = model_values(mj)
        ev = neval.Evaluator(E, vals)
        exp = None
        if kind == 'path':
            try:
                if not all(ev(p) for i, p in enumerate(E.pc)
                           if i not in E.axioms):
                    return
                exp = [(n, thaw(v, ev)) for n, v in env.observed]
            except neval.NoValue:
                return
            except OverflowError:
                return
        self.samples.append(dict(kind=kind, model=mj, expect=exp))


def dedupe(ms):
    out = []
    for m in ms:
        if m not in out:
            out.append(m)
    return out


def spread(E):
    """prefer distinct, non-zero real inputs"""
    rs = [x for k, x in E.inputs.values() if k == 'real']
    if not rs:
        return z3.BoolVal(True)
    c = [r != 0 for r in rs]
    if len(rs) > 1:
        c.append(z3.Distinct(*rs))
    return z3.And(c)


def guesses(E, n):
    """n concrete inputs that, evaluated, follow the current path"""
    out = []
    sol = z3.Solver()
    sol.set('timeout', 1000)
    for i, p in enumerate(E.pc):
        if i not in E.axioms and core.linear_cond(p) and \
                not any(v in E.ufvars for v in (E._vars(p) or ())):
            sol.add(p)
    E.bounds.update(E.pc)
    for k in range(3 * n):
        rnd = random.Random('%s-%d-%d' % (
            os.environ.get('VERIF_SEED', '1'), k, len(E.pc)))
        sol.push()
        for kind, x in E.inputs.values():
            if kind != 'real' or x.get_id() in E.linear:
                continue
            lo, hi = E.bounds.of(x)[:2]
            lo = max(lo, Fraction(-40))
            hi = min(hi, Fraction(40))
            for w in (1, 4, 16):
                v = lo + (hi - lo) * Fraction(rnd.randint(1, 31), 32 * w)
                v = Fraction(float(v))
                if sol.check(x == v) == z3.sat:
                    sol.add(x == v)
                    break
        if sol.check() == z3.sat:
            mj = model_json(E, sol.model())
            ev = neval.Evaluator(E, model_values(mj))
            zm = sol.model()
            ev.at = [x == zm.eval(x, model_completion=True)
                     for _, x in E.inputs.values() if z3.is_expr(x)]
            try:
                if all(ev(p) for i, p in enumerate(E.pc)
                       if i not in E.axioms):
                    out.append((mj, ev))
            except (neval.NoValue, OverflowError, ZeroDivisionError):
                pass
        sol.pop()
        if len(out) >= n:
            break
    return out


def refuting(E, c):
    """concrete inputs of the path for which c evaluates to false"""
    def false(ev, c):
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            return any(false(ev, d) for d in c.children())
        if k == z3.Z3_OP_EQ and z3.is_arith(c.arg(0)):
            a, b = ev(c.arg(0)), ev(c.arg(1))
            return abs(a - b) > 1e-6 * max(1e-3, abs(a), abs(b))
        return not ev(c)
    out = []
    g = guesses(E, 3)
    if not g:
        return None
    for mj, ev in g:
        try:
            if false(ev, c):
                out.append(mj)
        except (neval.NoValue, OverflowError, ZeroDivisionError):
            pass
    return out


def nice(E, k):
    rnd = random.Random('%s-%d' % (os.environ.get('VERIF_SEED', '1'), k))
    c = []
    for kind, x in E.inputs.values():
        if kind == 'real':
            c.append(x == Fraction(rnd.randint(-40, 40), 16))
    return z3.And(c) if c else z3.BoolVal(True)


def model_json(E, m):
    d = {}
    for name, (kind, x) in E.inputs.items():
        v = m.eval(x, model_completion=True)
        if kind == 'int':
            d[name] = v.as_long()
        elif kind == 'bool':
            d[name] = z3.is_true(v)
        else:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            # what a float input really is
            f = Fraction(float(f))
            d[name] = str(f)
    for name, (kind, x) in E.inputs.items():
        if x.get_id() in E.linear:          # the rest of a total
            t = E.linear[x.get_id()]
            for nm, (k2, y) in E.inputs.items():
                if nm in d and k2 == 'real':
                    t = z3.substitute(t, (y, z3.RealVal(d[nm])))
            d[name] = str(z3.simplify(t).as_fraction())
    return {'inputs': d, 'choices': dict(E.cfg)}


def model_values(mj):
    return {k: (Fraction(v) if isinstance(v, str) else v)
            for k, v in mj['inputs'].items()}


class Profiler:
    """records which functions of the project the engine executed"""

    def __init__(self, funcs):
        self.funcs = funcs
        self.root = REPO + os.sep

    def __call__(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(self.root) and \
                    co.co_name not in ('<module>' if os.sep + 'data' + os.sep
                                       not in co.co_filename else '', '<lambda>', '<listcomp>',
                                       '<genexpr>'):
                self.funcs.add('%s:%s' % (co.co_filename[len(self.root):],
                                          co.co_qualname))


# cases with counterexamples so far, time of the last one
SHARED = None


def explore(check, case, deadline, max_samples=4):
    """run one case on every path; returns a picklable result"""
    opts = case.opts
    E = Engine(timeout_ms=int(opts.get('timeout', 20) * 1000),
               max_paths=opts.get('max_paths', 100000), deadline=deadline)
    E.guesser = lambda e, n: [ev.at for _, ev in guesses(e, n)]
    core.ENG = E
    RN.seterr(all='ignore')
    E.fp_mode = opts.get('fp', False)
    E.use_signs = opts.get('signs', False)
    E.ite_index = opts.get('ite_index', False)
    E.model_overflow = opts.get('overflow', False)
    rep = Report(check, case.name)
    t0 = time.time()
    done = aborted = unsup = 0
    try:
        for _ in E.paths():
            env = SymEnv(E, rep)
            n = E.stats.paths
            prof = n <= 3 or n % 64 == 0
            if prof:
                sys.setprofile(Profiler(rep.funcs))
            if rep.ncand and not rep.t_first:
                rep.t_first = time.time()
                if SHARED is not None:
                    with SHARED.get_lock():
                        SHARED[0] += 1
                        SHARED[1] = time.time()
            if rep.t_first and sum(rep.ncand.values()) > 2 and \
                    time.time() - rep.t_first > 30:
                rep.inconclusive('stopped after %d counterexamples'
                                 % sum(rep.ncand.values()))
                break
            if SHARED is not None and SHARED[0] >= 4 and \
                    time.time() - SHARED[1] > 20:
                rep.inconclusive('stopped: counterexamples in other cases')
                break
            try:
                try:
                    case.fn(env, **case.kw)
                finally:
                    sys.setprofile(None)
                done += 1
                if E.model is None and E.decisions and \
                        E._check() == z3.unsat:
                    rep.inconclusive('engine error: infeasible path')
                if rep.nsample < max_samples and (
                        done <= 2 or done in (4, 9, 17, 33, 65, 129, 257)):
                    rep.sample(env, 'path')
            except PathAbort:
                aborted += 1
            except AssumptionFailed:
                aborted += 1
            except StopHarness:
                done += 1
            except (Unsupported, NotImplementedError) as ex:
                unsup += 1
                where = traceback.extract_tb(ex.__traceback__)
                src = [f for f in where if f.filename.startswith(REPO)]
                w = '%s:%d' % (os.path.basename(src[-1].filename),
                               src[-1].lineno) if src else ''
                if os.environ.get('SYMEX_TB'):
                    traceback.print_exc()
                rep.inconclusive('unsupported: %s %s' % (ex, w))
                if rep.nsample < 40:
                    rep.sample(env, 'unsupported')
            except Inconclusive as ex:
                if os.environ.get('SYMEX_TB'):
                    traceback.print_exc()
                rep.inconclusive(ex)
                if E.deadline and time.time() > E.deadline:
                    break
            except RecursionError as ex:
                rep.inconclusive('recursion limit')
            except Exception as ex:
                done += 1
                if os.environ.get('SYMEX_TB'):
                    traceback.print_exc()
                rep.exception(env, ex)
    except Inconclusive as ex:
        rep.inconclusive(ex)
    s = E.stats
    return dict(
        case=case.name, paths=s.paths, completed=done, aborted=aborted,
        unsupported=unsup, branches=s.branches, forks=s.forks,
        queries=s.queries, obligations=s.obligations,
        discharged=s.discharged, syntactic=s.syntactic,
        solver_s=round(s.solver_s, 3), max_query_s=round(s.max_query_s, 3),
        wall_s=round(time.time() - t0, 3), inconclusive=rep.inconc,
        candidates=rep.cands, ncand=rep.ncand, samples=rep.samples,
        funcs=sorted(rep.funcs), log=sorted(set(E.log)))
