"""SMT encoding of Syms/SBools and the query interface (z3, cvc5 fallback)."""
import math
import sys
import time
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3                                                    # noqa: E402

from . import icp, sym                                            # noqa: E402
from .interval import INF                                    # noqa: E402
from .sym import ATOMS, SBool, Sym                           # noqa: E402

_q = z3.RatVal


def rv(c):
    return z3.RealVal(c) if c.denominator == 1 else _q(c.numerator,
                                                       c.denominator)


def frv(f, up):
    """float -> rational z3 value (short decimal, rounded outward)."""
    if f == 0:
        return z3.RealVal(0)
    e = max(0, 14 - int(math.floor(math.log10(abs(f)))))
    s = 10 ** e
    n = math.ceil(Fraction(f) * s) if up else math.floor(Fraction(f) * s)
    return rv(Fraction(n, s))


class Encoder:
    """Translates terms; collects the definitions and axioms of the atoms."""

    def __init__(self, bounds):
        self.bounds = bounds
        self.cache = {}
        self.bcache = {}
        self.zatom = {}
        self.zinv = {}
        self.defs = {}        # atom id -> list of z3 constraints (own)
        self.deps = {}        # atom id -> set of atom ids it depends on
        self.zvars = {}

    # -- dependencies
    def term_atoms(self, x, out, seen):
        if isinstance(x, SBool):
            if id(x) in seen:
                return
            seen.add(id(x))
            if x.op == 'bvar':
                return
            for a in x.args:
                self.term_atoms(a, out, seen)
        elif isinstance(x, Sym):
            for m in x.t:
                for i, e in m:
                    out.add((i, e < 0))
                    if i in seen:
                        continue
                    seen.add(i)
                    for a in ATOMS[i].args:
                        self.term_atoms(a, out, seen)

    # -- terms
    def term(self, x):
        key = x.key()
        r = self.cache.get(key)
        if r is not None:
            return r
        parts = []
        for m, c in x.t.items():
            fs = []
            for i, e in m:
                v = self.inv(i) if e < 0 else self.atom(i)
                fs.extend([v] * abs(e))
            if not fs:
                parts.append(rv(c))
            else:
                p = fs[0] if len(fs) == 1 else z3.Product(fs)
                parts.append(p if c == 1 else rv(c) * p)
        if not parts:
            r = z3.RealVal(0)
        elif len(parts) == 1:
            r = parts[0]
        else:
            r = z3.Sum(parts)
        self.cache[key] = r
        return r

    def atom(self, i):
        r = self.zatom.get(i)
        if r is not None:
            return r
        a = ATOMS[i]
        if a.isint:
            n = z3.Int('%s%s' % ('' if a.kind == 'var' else 'a%d_' % i,
                                 a.name))
            self.zvars[i] = n
            r = z3.ToReal(n)
        else:
            r = z3.Real('%s%s' % ('' if a.kind == 'var' else 'a%d_' % i,
                                  a.name))
            self.zvars[i] = r
        self.zatom[i] = r
        return r

    def inv(self, i):
        r = self.zinv.get(i)
        if r is None:
            r = z3.Real('inv%d' % i)
            self.zinv[i] = r
        return r

    def bool(self, b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        r = self.bcache.get(id(b))
        if r is not None:
            return r[0]
        op = b.op
        if op in ('<', '<=', '=='):
            t = self.term(b.args[0])
            z = {'<': lambda: t < 0, '<=': lambda: t <= 0,
                 '==': lambda: t == 0}[op]()
        elif op == 'and':
            z = z3.And([self.bool(a) for a in b.args])
        elif op == 'or':
            z = z3.Or([self.bool(a) for a in b.args])
        elif op == 'not':
            z = z3.Not(self.bool(b.args[0]))
        else:
            z = z3.Bool(b.args[0])
        self.bcache[id(b)] = (z, b)
        return z

    # -- axioms
    def axioms(self, atoms, lemmas=()):
        """Definitions of a closed set of (atom id, inverse?) pairs."""
        out = []
        ids = sorted({i for i, _ in atoms})
        groups = {}
        for i in ids:
            a = ATOMS[i]
            z = self.atom(i)
            zz = self.zvars[i]
            lo, hi = self.bounds.atom(a)
            if a.kind == 'var' or a.kind == 'fn':
                if lo > -INF:
                    out.append(zz >= (int(math.ceil(lo)) if a.isint
                                      else frv(lo, False)))
                if hi < INF:
                    out.append(zz <= (int(math.floor(hi)) if a.isint
                                      else frv(hi, True)))
            if a.kind == 'alias':
                out.append(z == self.term(a.args[0]))
                if lo > -INF:
                    out.append(z >= frv(lo, False))
                if hi < INF:
                    out.append(z <= frv(hi, True))
            elif a.kind == 'ite':
                c, x, y = a.args
                cz = self.bool(c)
                out.append(z == z3.If(cz, self.term(x), self.term(y)))
            elif a.kind == 'fn':
                x = self.term(a.args[0])
                if a.name == 'floor':
                    out.append(z <= x)
                    out.append(x < z + 1)
                elif a.name == 'sqrt':
                    out.append(z >= 0)
                    out.append(z * z == x)
                elif a.name == 'exp':
                    out.append(z > 0)
                    out.append(z >= 1 + x)
                elif a.name in ('pow', 'pow2', 'powc'):
                    e = self.term(a.args[1])
                    out.append(z3.Implies(x > 0, z > 0))
                    out.append(z >= 0)
                    out.append(z3.Implies(x == 1, z == 1))
                    out.append(z3.Implies(e == 0, z == 1))
                    out.append(z3.Implies(e == 1, z == x))
                    out.append(z3.Implies(z3.And(x == 0, e > 0), z == 0))
                    out.append(z3.Implies(
                        z3.And(x > 0, x <= 1, e >= 0), z <= 1))
                    out.append(z3.Implies(z3.And(x >= 1, e >= 0), z >= 1))
                    out.append(z3.Implies(z3.And(x >= 1, e <= 0), z <= 1))
                    out.append(z3.Implies(
                        z3.And(x > 0, x <= 1, e <= 0), z >= 1))
                    out.append(z3.Implies(z3.And(x > 0, x < 1, e > 0), z < 1))
                k = a.name
                if k == 'pow' and len(a.args) > 1:
                    k = (k, a.args[1].key())
                elif k == 'powc':
                    k = (k, a.args[0].key())
                groups.setdefault(k, []).append(i)
        for i, neg in atoms:
            if neg:
                out.append(self.inv(i) * self.atom(i) == 1)
                lo, hi = self.bounds.atom(ATOMS[i])
                if lo > 0:
                    if hi < INF:
                        out.append(self.inv(i) >= frv(1 / hi * (1 - 1e-12),
                                                      False))
                    out.append(self.inv(i) <= frv(1 / lo * (1 + 1e-12), True))
                elif hi < 0:
                    out.append(self.inv(i) < 0)
        for k, g in groups.items():
            if k == 'floor':
                continue
            name = k if isinstance(k, str) else k[0]
            if len(g) > 30:
                continue
            for p in range(len(g)):
                for q in range(p):
                    out.extend(self.pair(name, g[p], g[q]))
        for lm in lemmas:
            out.append(lm)
        return out

    def pair(self, name, i, j):
        a, b = ATOMS[i], ATOMS[j]
        za, zb = self.atom(i), self.atom(j)
        if name == 'powc':
            base = a.args[0].const
            x, y = self.term(a.args[1]), self.term(b.args[1])
            if base < 1:
                x, y = y, x
            return [z3.Implies(x < y, za < zb), z3.Implies(x > y, za > zb),
                    z3.Implies(x == y, za == zb)]
        if name == 'pow2':
            x, y = self.term(a.args[0]), self.term(b.args[0])
            e, f = self.term(a.args[1]), self.term(b.args[1])
            return [z3.Implies(z3.And(x == y, e == f), za == zb)]
        x, y = self.term(a.args[0]), self.term(b.args[0])
        if name in ('exp', 'log', 'sqrt', 'tanh', 'arctan', 'arcsin'):
            pass
        elif name == 'arccos':
            x, y = y, x
        elif name == 'pow':
            if a.args[1].const is not None and a.args[1].const < 0:
                x, y = y, x
        else:
            return [z3.Implies(x == y, za == zb)]
        return [z3.Implies(x < y, za < zb), z3.Implies(x > y, za > zb),
                z3.Implies(x == y, za == zb)]


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.refinements = 0
        self.seconds = 0.0
        self.interval = 0
        self.icp = 0
        self.boxes = 0


def zval(v):
    if v is None:
        return None
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


class Solver:
    def __init__(self, bounds, timeout_ms=8000):
        self.bounds = bounds
        self.enc = Encoder(bounds)
        self.stats = Stats()
        self.timeout = timeout_ms
        self.deadline = None
        self.lemmas = {}          # atom id -> list of z3 lemmas
        self._vars = {}
        self.isint = {}           # variable name -> integer?

    def vars_of(self, b):
        r = self._vars.get(id(b))
        if r is None:
            r = (frozenset(sym.free_vars(b)), b)
            self._vars[id(b)] = r
        return r[0]

    def relevant(self, goal, pc):
        vs = set()
        for g in goal:
            vs |= self.vars_of(g)
        out, rest = [], list(pc)
        changed = True
        while changed:
            changed = False
            keep = []
            for c in rest:
                if self.vars_of(c) & vs:
                    vs |= self.vars_of(c)
                    out.append(c)
                    changed = True
                else:
                    keep.append(c)
            rest = keep
        return out

    busy = False

    def check(self, *a, **kw):
        self.busy = True
        try:
            return self._check(*a, **kw)
        finally:
            self.busy = False

    def _check(self, goal, pc, timeout=None, want_model=False, full=False):
        """Satisfiability of pc and goal: ('sat', env) / ('unsat', None) /
        ('unknown', None).  env is a variable assignment."""
        goal = [g for g in goal]
        for g in goal:
            if not isinstance(g, SBool):
                if not bool(g):
                    return 'unsat', None
        goal = [g for g in goal if isinstance(g, SBool)]
        cons = goal + (list(pc) if full else self.relevant(goal, pc))
        t0 = time.time()
        self.stats.queries += 1
        tmo = timeout or self.timeout
        r, env = 'unknown', None
        hard = self.opaque(cons)
        if hard == 'fn':
            r, env = self._icp(cons, 0.4)
            if r in ('sat', 'unsat'):
                self.stats.seconds += time.time() - t0
                setattr(self.stats, r, getattr(self.stats, r) + 1)
                return r, env
            r, env = 'unknown', None
        for rnd in range(12):
            r, m = self._run(cons, tmo)
            if r != 'sat':
                break
            env = self._env(m, cons)
            ok, refined = self._audit(cons, env, m)
            if ok:
                break
            if not refined:
                r = 'sat?'
                break
            self.stats.refinements += 1
        else:
            r = 'sat?'
        if hard and r not in ('sat', 'unsat'):
            q, e = self._icp(cons, max(2.0, tmo / 1000.0))
            if q in ('sat', 'unsat'):
                r, env = q, e
        self.stats.seconds += time.time() - t0
        if r == 'sat':
            self.stats.sat += 1
        elif r == 'unsat':
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, env

    def opaque(self, cons):
        """'fn' if the constraints hold transcendental terms, which z3 only
        sees as opaque reals; 'nl' if they are merely nonlinear; else None."""
        seen = set()
        found = [None]

        def term(x):
            for m in x.t:
                if len(m) > 1 or m and m[0][1] != 1:
                    found[0] = found[0] or 'nl'
                for i, e in m:
                    if i in seen:
                        continue
                    seen.add(i)
                    a = ATOMS[i]
                    if a.kind == 'fn' and a.name != 'floor':
                        found[0] = 'fn'
                    for z in a.args:
                        if isinstance(z, SBool):
                            boolean(z)
                        elif isinstance(z, Sym):
                            term(z)

        def boolean(b):
            if id(b) in seen or b.op == 'bvar':
                return
            seen.add(id(b))
            for a in b.args:
                if isinstance(a, SBool):
                    boolean(a)
                elif isinstance(a, Sym):
                    term(a)
        for c in cons:
            boolean(c)
        return found[0]

    def _icp(self, cons, seconds):
        r, n = icp.refute(cons, self.bounds, self.isint, seconds)
        if r == 'sat':
            return r, n
        self.stats.boxes += n
        if r == 'unsat':
            self.stats.icp += 1
        return r, None

    def model_for(self, x, pc, tmo):
        """A model of pc that also fixes the integer term x consistently."""
        big = 10 ** 12
        goal = [sym.SBool('<=', (x - big,)), sym.SBool('<=', (-big - x,))]
        return self.check(goal, pc, tmo)

    def _run(self, cons, tmo):
        atoms, seen = set(), set()
        for c in cons:
            self.enc.term_atoms(c, atoms, seen)
        ax = self.enc.axioms(atoms)
        for i, _ in atoms:
            ax.extend(self.lemmas.get(i, ()))
        zs = [self.enc.bool(c) for c in cons]
        self._cur = atoms
        s = z3.Solver()
        s.set('timeout', int(tmo))
        s.set('random_seed', 1)
        s.add(*ax)
        s.add(*zs)
        r = s.check()
        if r == z3.sat:
            return 'sat', s.model()
        if r == z3.unsat:
            return 'unsat', None
        # second opinion: nonlinear tactic
        try:
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs',
                         'purify-arith', 'elim-term-ite', 'simplify',
                         'qfnra-nlsat').solver()
            s2.set('timeout', int(tmo))
            s2.add(*ax)
            s2.add(*zs)
            r = s2.check()
            if r == z3.sat:
                return 'sat', s2.model()
            if r == z3.unsat:
                return 'unsat', None
        except z3.Z3Exception:
            pass
        return 'unknown', None

    def _env(self, m, cons):
        env = {}
        for c in cons:
            for n in self.vars_of(c):
                env[n] = None
        for i, z in list(self.enc.zvars.items()):
            a = ATOMS[i]
            if a.kind == 'var' and a.name in env:
                v = zval(m.eval(z, model_completion=True))
                env[a.name] = v if v is not None else Fraction(0)
        for n in env:
            if env[n] is None:
                v = zval(m.eval(z3.Bool(n), model_completion=True))
                env[n] = bool(v) if isinstance(v, bool) else Fraction(0)
        return env

    def _audit(self, cons, env, m):
        """Evaluate the constraints with the real functions; if they fail, add
        lemmas that cut off the spurious values."""
        fns = [ATOMS[i] for i, _ in self._cur
               if ATOMS[i].kind == 'fn' and ATOMS[i].name not in
               ('floor', 'sqrt')]
        if not fns:
            return True, False
        memo = {}
        try:
            good = all(holds(c, env, memo) for c in cons)
        except KeyError:
            return True, False
        if good:
            return True, False
        added = False
        for a in fns:
            zx = [zval(m.eval(self.enc.term(t), model_completion=True))
                  for t in a.args]
            if any(v is None for v in zx):
                continue
            zv = zval(m.eval(self.enc.atom(a.id), model_completion=True))
            lm = self._lemma(a, [float(v) for v in zx],
                             None if zv is None else float(zv), zx)
            if lm:
                cur = self.lemmas.setdefault(a.id, [])
                if len(cur) < 60:
                    cur.extend(lm)
                    added = True
        return False, added

    def _lemma(self, a, x, v, xr):
        n = a.name
        z = self.enc.atom(a.id)
        f = sym.FLOATFN.get(n)
        try:
            if n in ('pow', 'powc', 'pow2'):
                t = x[0] ** x[1]
            else:
                t = f(x[0])
        except (ValueError, OverflowError, ZeroDivisionError):
            return []
        if isinstance(t, complex) or t != t or abs(t) == INF:
            return []
        if v is not None and abs(v - t) <= 1e-9 * max(1.0, abs(t)):
            return []
        tol = 1e-11 * max(abs(t), 1e-6)
        lo, hi = frv(t - tol, False), frv(t + tol, True)
        x0 = self.enc.term(a.args[0])
        if n in ('exp', 'log', 'tanh', 'arctan', 'arcsin', 'arccos'):
            p = rv(xr[0])
            up = n != 'arccos'
            res = [z3.Implies(x0 <= p, z <= hi if up else z >= lo),
                   z3.Implies(x0 >= p, z >= lo if up else z <= hi)]
            if n == 'exp':      # tangent: e^x >= e^p (1 + x - p)
                res.append(z >= lo * (1 + x0 - p))
            if n == 'log' and x[0] > 0:
                res.append(z <= hi + (x0 - p) / p)
            return res
        if n == 'pow':
            e = a.args[1].const
            p = rv(xr[0])
            up = e > 0
            return [z3.Implies(z3.And(x0 >= 0, x0 <= p),
                               z <= hi if up else z >= lo),
                    z3.Implies(x0 >= p, z >= lo if up else z <= hi)]
        if n == 'powc':
            p = rv(xr[1])
            e0 = self.enc.term(a.args[1])
            up = a.args[0].const > 1
            return [z3.Implies(e0 <= p, z <= hi if up else z >= lo),
                    z3.Implies(e0 >= p, z >= lo if up else z <= hi)]
        if n == 'pow2':
            e0 = self.enc.term(a.args[1])
            p, q = rv(xr[0]), rv(xr[1])
            return [z3.Implies(z3.And(x0 == p, e0 == q),
                               z3.And(z >= lo, z <= hi))]
        if n in ('sin', 'cos'):
            # lipschitz: |f(x) - f(p)| <= |x - p|
            p = rv(xr[0])
            return [z3.Implies(x0 >= p, z3.And(z <= hi + (x0 - p),
                                               z >= lo - (x0 - p))),
                    z3.Implies(x0 <= p, z3.And(z <= hi + (p - x0),
                                               z >= lo - (p - x0)))]
        return []


def holds(c, env, memo):
    """Numeric truth of a constraint with a little slack."""
    if not isinstance(c, SBool):
        return bool(c)
    if c.op in ('<', '<=', '=='):
        d = c.args[0]
        v = float(sym.evaluate(d, env, memo))
        if v != v:
            return False
        sc = sum(abs(float(k)) for m, k in d.t.items()) or 1.0
        slack = 1e-9 * min(sc, max(1.0, abs(v)))
        return abs(v) <= 1e-7 * sc if c.op == '==' else v <= slack
    if c.op == 'and':
        return all(holds(a, env, memo) for a in c.args)
    if c.op == 'or':
        return any(holds(a, env, memo) for a in c.args)
    if c.op == 'not':
        return not holds(c.args[0], env, memo)
    return bool(env[c.args[0]])
