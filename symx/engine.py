"""Path exploration by re-execution: every symbolic truth value asks the solver
which outcomes are possible under the path condition; both are explored."""
import time
import traceback
from fractions import Fraction

from . import sym
from .interval import Bounds
from .solver import Solver, holds
from .sym import SBool, Sym, band, bnot


class Abort(BaseException):
    """End the current path (assumption failed / infeasible)."""


class Budget(BaseException):
    """Out of time."""


class Hung(BaseException):
    """The code under test does not return."""


class Engine:
    def __init__(self, deadline=None, timeout_ms=8000, max_paths=100000,
                 branch_timeout=1500):
        self.ranges = {}
        self.bounds = Bounds(self.ranges)
        self.solver = Solver(self.bounds, timeout_ms)
        self.deadline = deadline
        self.max_paths = max_paths
        self.branch_timeout = branch_timeout
        self.vars = {}             # name -> Sym/SBool (declaration order)
        # statistics
        self.paths = 0
        self.aborted = 0
        self.branches = 0          # decided by the solver
        self.branches_interval = 0
        self.forks = 0
        self.obligations = 0
        self.discharged = 0
        self.syntactic = 0
        self.undecided = []
        self.candidates = []       # (label, env)
        self.witnesses = []        # (env, observations)
        self.concretised = {}
        self.unexplored = 0
        self.unsupported = []
        self.errors = []
        self.complete = True

    # -- declarations
    def declare(self, name, lo, hi, isint=False):
        v = self.vars.get(name)
        if v is None:
            v = sym.var(name, isint)
            self.vars[name] = v
            self.ranges[name] = (lo, hi)
            self.solver.isint[name] = isint
        return v

    def declare_bool(self, name):
        v = self.vars.get(name)
        if v is None:
            v = sym.bvar(name)
            self.vars[name] = v
        return v

    def fresh(self, name, lo, hi, isint=False):
        """Deterministic auxiliary variable (stub result)."""
        return self.declare(name, lo, hi, isint)

    # -- exploration
    def explore(self, body, max_witness=12):
        """body() runs the harness once on the current path."""
        stack = [[]]
        while stack:
            if self.deadline and time.time() > self.deadline or \
                    self.paths >= self.max_paths:
                self.unexplored += len(stack)
                self.complete = False
                break
            prefix = stack.pop()
            self.prefix = prefix
            self.pos = 0
            self.trail = []
            self.pc = []
            self.pcset = set()
            self.new = []
            self.obs = {}
            self.path_concretised = False
            sym.ENGINE = self
            ok = True
            try:
                body()
            except Abort:
                ok = False
                self.aborted += 1
            except Budget:
                self.unexplored += 1
                self.complete = False
                ok = False
            except sym.Unsupported as e:
                ok = False
                tb = traceback.extract_tb(e.__traceback__)
                where = ' < '.join('%s:%d' % (f.filename.split('/')[-1],
                                              f.lineno) for f in tb[-4:])
                self.unsupported.append('%s [%s]' % (e, where))
                self._witness(None)
            finally:
                sym.ENGINE = None
            stack.extend(reversed(self.new))
            if ok:
                self.paths += 1
                if len(self.witnesses) < max_witness:
                    self._witness(dict(self.obs))

    def _witness(self, obs):
        sym.ENGINE = self
        try:
            r, env = self.solver.check([], self.pc, full=True)
        finally:
            sym.ENGINE = None
        if r == 'unsat':
            self.errors.append('path condition unsatisfiable at end of path')
            return
        if r != 'sat':
            return
        env = self.complete_env(env)
        env = self.nice(env, list(self.pc))
        self.witnesses.append((env, obs))

    def complete_env(self, env):
        full = {}
        for n, v in self.vars.items():
            if n in env:
                full[n] = env[n]
            elif isinstance(v, SBool):
                full[n] = False
            else:
                lo, hi = self.ranges[n]
                full[n] = self.default(lo, hi, v.isint)
        return full

    @staticmethod
    def default(lo, hi, isint):
        if lo is None and hi is None:
            return Fraction(0)
        if lo is None:
            return sym.frac(hi) - 1
        if hi is None:
            return sym.frac(lo) + 1
        m = (sym.frac(lo) + sym.frac(hi)) / 2
        return Fraction(m.numerator // m.denominator) if isint and \
            m.denominator != 1 else m

    def nice(self, env, cons):
        """Round the values while the constraints still hold."""
        if not cons:
            return env
        cur = dict(env)

        def good(e):
            memo = {}
            try:
                return all(strict(c, e, memo) for c in cons)
            except Exception:
                return False
        base = good(cur)
        n = 0
        for k, v in list(cur.items()):
            if isinstance(v, bool) or v.denominator == 1:
                continue
            lo, hi = self.ranges.get(k, (None, None))
            for d in (1, 100, 10000, 10 ** 8):
                w = Fraction(round(v * d), d)
                if lo is not None and w < sym.frac(lo) or \
                        hi is not None and w > sym.frac(hi):
                    continue
                t = dict(cur)
                t[k] = w
                n += 1
                if n > 150:
                    return cur
                if not base or good(t):
                    if base:
                        cur = t
                    break
        return cur

    # -- decisions
    def _next(self, kind):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != kind:
                raise RuntimeError('non-deterministic re-execution: %r vs %s'
                                   % (d, kind))
            self.trail.append(d)
            return d
        return None

    def _push(self, d):
        self.trail.append(d)
        self.pos += 1

    def add_pc(self, c):
        if isinstance(c, SBool):
            if c.op == 'and':
                for a in c.args:
                    self.add_pc(a)
                return
            if id(c) not in self.pcset:
                self.pcset.add(id(c))
                self.pc.append(c)

    def known(self, c):
        if id(c) in self.pcset:
            return True
        n = bnot(c)
        if isinstance(n, SBool) and id(n) in self.pcset:
            return False
        return None

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()

    def branch(self, c):
        t = self.bounds.truth(c)
        if t is not None:
            self.branches_interval += 1
            return t
        t = self.known(c)
        if t is not None:
            return t
        d = self._next('b')
        if d is not None:
            if not d[2]:
                self.add_pc(c if d[1] else bnot(c))
            return d[1]
        self.tick()
        self.branches += 1
        n = bnot(c)
        rt, _ = self.solver.check([c], self.pc, self.branch_timeout)
        if rt == 'unsat':
            self._push(('b', False, True))
            return False
        rf, _ = self.solver.check([n], self.pc, self.branch_timeout)
        if rf == 'unsat':
            self._push(('b', True, True))
            return True
        self.forks += 1
        self.new.append(self.trail + [('b', False, False)])
        self._push(('b', True, False))
        self.add_pc(c)
        return True

    def decide(self, c):
        """Truth of c if it is implied by the path condition, else None; never
        forks."""
        if not isinstance(c, SBool):
            return bool(c)
        t = self.bounds.truth(c)
        if t is not None:
            return t
        t = self.known(c)
        if t is not None:
            return t
        d = self._next('d')
        if d is not None:
            return d[1]
        self.tick()
        r = None
        if self.solver.check([c], self.pc, self.branch_timeout)[0] == 'unsat':
            r = False
        elif self.solver.check([bnot(c)], self.pc,
                               self.branch_timeout)[0] == 'unsat':
            r = True
        self._push(('d', r))
        return r

    def may_be_zero(self, x):
        return self._may(x == 0)

    def may_be_negative(self, x):
        return self._may(x < 0)

    def _may(self, c):
        if not isinstance(c, SBool):
            return bool(c)
        t = self.bounds.truth(c)
        if t is not None:
            return t
        t = self.known(c)
        if t is not None:
            return t
        d = self._next('m')
        if d is not None:
            return d[1]
        self.tick()
        r = self.solver.check([c], self.pc, self.branch_timeout)[0] != 'unsat'
        self._push(('m', r))
        return r

    def concretize_int(self, x, limit=4000):
        """Fork over the possible integer values of x."""
        lo, hi = self.bounds.sym(x)
        if hi - lo < 0.5 and round(lo) == round(hi) and x.isint:
            return int(round(lo))
        for _ in range(limit):
            d = self._next('i')
            if d is None:
                self.tick()
                self.branches += 1
                r, env = self.solver.model_for(x, self.pc,
                                               self.branch_timeout)
                if r == 'unsat':
                    raise Abort()
                if env is None:
                    v = int(round((lo + hi) / 2))
                else:
                    env = self.complete_env(env)
                    v = int(round(float(sym.evaluate(x, env))))
                c = x == v
                if not isinstance(c, SBool):
                    if c:
                        return v
                    raise Abort()
                if self.solver.check([bnot(c)], self.pc,
                                     self.branch_timeout)[0] != 'unsat':
                    self.forks += 1
                    self.new.append(self.trail + [('i', v, False)])
                d = ('i', v, True)
                self._push(d)
            v = d[1]
            c = x == v
            if d[2]:
                self.add_pc(c)
                return v
            self.add_pc(bnot(c))
        raise sym.Unsupported('too many integer values')

    def concretize_real(self, x):
        self.path_concretised = True
        k = repr(x)[:60]
        self.concretised[k] = self.concretised.get(k, 0) + 1
        d = self._next('r')
        if d is None:
            r, env = self.solver.check([], self.pc, full=True)
            if r == 'unsat':
                raise Abort()
            env = self.complete_env(env or {})
            v = float(sym.evaluate(x, env))
            d = ('r', v)
            self._push(d)
        v = d[1]
        c = (x == v)
        if isinstance(c, SBool):
            self.add_pc(c)
        return v

    # -- specification
    def assume(self, c):
        if not isinstance(c, SBool):
            if not bool(c):
                raise Abort()
            return
        t = self.bounds.truth(c)
        if t is True:
            return
        if t is False:
            raise Abort()
        self.add_pc(c)
        d = self._next('a')
        if d is None:
            self.tick()
            r = self.solver.check([c], [p for p in self.pc if p is not c],
                                  self.branch_timeout)[0] != 'unsat'
            d = ('a', r)
            self._push(d)
        if not d[1]:
            raise Abort()

    def prove(self, c, label, timeout=None):
        """Obligation: c holds for every value on this path."""
        self.obligations += 1
        if not isinstance(c, SBool):
            if bool(c):
                self.discharged += 1
                self.syntactic += 1
            else:
                r, env = self.solver.check([], self.pc, full=True)
                if r != 'unsat':
                    self._candidate(label, env, [])
            return
        t = self.bounds.truth(c)
        if t is True:
            self.discharged += 1
            self.solver.stats.interval += 1
            return
        if self.known(c) is True:
            self.discharged += 1
            return
        if c.op == 'and' and len(c.args) > 1:
            self.obligations -= 1
            for a in c.args:
                self.prove(a, label, timeout)
            return
        self.tick()
        n = bnot(c)
        r, env = self.solver.check([n], self.pc, timeout)
        if r == 'unsat':
            self.discharged += 1
        elif r == 'sat':
            # complete with the whole path condition
            r2, env2 = self.solver.check([n], self.pc, timeout, full=True)
            self._candidate(label, env2 if r2 == 'sat' else env, [n])
            self._clearer(label, n, timeout)
        else:
            self.undecided.append(label)
            r2, env2 = self.solver.check([], self.pc, full=True)
            if env2 is not None and len(self.witnesses) < 40:
                self.witnesses.append((self.complete_env(env2), None))

    def _clearer(self, label, n, timeout):
        """Another counterexample, further from the edge: one at the edge of a
        tolerance may be lost to rounding in the replay."""
        if sum(1 for l, _ in self.candidates if l == label) >= 6:
            return
        for eps in (1.0, 0.1, 0.01, 0.001):
            self.tick()
            m = sym.stronger(n, eps)
            if not isinstance(m, SBool):
                if m is False:
                    continue
                return
            if self.bounds.truth(m) is False:
                continue
            r, env = self.solver.check([m], self.pc, timeout, full=True)
            if r == 'sat':
                self._candidate(label, env, [m])
                return

    def _candidate(self, label, env, goal):
        if env is None:
            env = {}
        if sum(1 for l, _ in self.candidates if l == label) >= 6:
            self.candidates.append((label, None))
            return
        env = self.complete_env(env)
        env = self.settle(env, goal)
        tidy = self.nice(env, list(self.pc) + goal)
        if not goal or not self.real(env, goal) or self.real(tidy, goal):
            env = tidy
        self.candidates.append((label, env))

    def real(self, env, goal):
        """Whether the model holds with the true values of the stand-ins."""
        res = self.__dict__.get('resolvers', {})
        env = dict(env)
        try:
            for n in self.vars:
                if n in res:
                    env[n] = sym.frac(res[n](env))
            return all(strict(c, env, {}) for c in list(self.pc) + goal)
        except Exception:
            return False

    def settle(self, env, goal):
        """A stand-in that is only bounded may take values the real routine
        does not; look for a model near the values it does take."""
        res = self.__dict__.get('resolvers', {})
        if not res or not goal:
            return env
        cons = list(self.pc) + goal
        best = env
        for width in (0.02, 0.1, 0.1, 0.05, 0.02, 0.01):
            near = dict(env)
            try:
                for n in self.vars:
                    if n in res:
                        near[n] = sym.frac(res[n](near))
                if all(strict(c, near, {}) for c in cons):
                    return near
            except Exception:
                return best
            pins = []
            for n in res:
                v = self.vars.get(n)
                if v is None or n not in near:
                    continue
                x = v[0] if isinstance(v, tuple) else v
                if not isinstance(x, sym.Sym):
                    continue
                pins += [x <= float(near[n]) + width,
                         x >= float(near[n]) - width]
            pins = [p for p in pins if isinstance(p, SBool)]
            self.tick()
            r, e2 = self.solver.check(goal + pins, self.pc, full=True)
            if r != 'sat':
                continue
            env = self.complete_env(e2)
        return best


def strict(c, env, memo):
    if not isinstance(c, SBool):
        return bool(c)
    return bool(sym.evaluate(c, env, memo))
