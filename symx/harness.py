"""Harness context: one harness function serves both the symbolic run (its
claims become solver obligations) and the replay on the untouched code."""
import builtins
import math
from fractions import Fraction

import numpy as np

from . import sym
from .sym import SBool, Sym


class Skip(BaseException):
    """Replay: the precondition does not hold for these inputs."""


class Base:
    # arithmetic usable in both modes
    def exp(self, x):
        return sym.fn('exp', x) if isinstance(x, Sym) else math.exp(x)

    def sqrt(self, x):
        return sym.fn('sqrt', x) if isinstance(x, Sym) else \
            math.sqrt(x) if x >= 0 else float('nan')

    def fn(self, name, x):
        return sym.fn(name, x) if isinstance(x, Sym) else \
            float(getattr(np, name)(x))

    def pow(self, x, y):
        if isinstance(x, Sym) or isinstance(y, Sym):
            return sym.power(x, y)
        with np.errstate(all='ignore'):
            return float(np.power(float(x), float(y)))

    def ite(self, c, a, b):
        E = sym.ENGINE
        if isinstance(c, SBool) and E is not None:
            t = E.bounds.truth(c)
            if t is None:
                t = E.known(c)
            if t is not None:
                c = t
        return sym.ite(c, a, b)

    def max(self, a, b):
        return sym.smax(a, b)

    def min(self, a, b):
        return sym.smin(a, b)

    def sum(self, xs):
        xs = list(xs)
        if any(isinstance(x, Sym) for x in xs):
            return sym.ssum(xs)
        return math.fsum(float(x) for x in xs)

    def trunc(self, x):
        return sym.trunc(x) if isinstance(x, Sym) else math.trunc(x)

    def floor(self, x):
        return sym.floor(x) if isinstance(x, Sym) else math.floor(x)

    def band(self, *xs):
        return sym.band(*xs)

    def bor(self, *xs):
        return sym.bor(*xs)

    def bnot(self, x):
        return sym.bnot(x)

    def implies(self, a, b):
        return sym.bor(sym.bnot(a), b)

    snap = None

    def fresh(self):
        """Undo what runs so far may have left in the modules."""
        self.snap.restore()

    def svp(self, t):
        """Saturation vapour pressure [Pa] (Maidment 4.2.2 with the ice
        correction below freezing)."""
        s = self.exp((17.269 * t) / (237.3 + t)) * 0.61078
        cold = s * (1.0 + .00972 * t + .000042 * t * t)
        return self.ite(t < 0, cold, s) * 1000.

    def isnum(self, x):
        """x is a real number (not nan/inf/None)."""
        if isinstance(x, (Sym, SBool)):
            return True
        try:
            return bool(np.isfinite(float(x)))
        except (TypeError, ValueError):
            return False

    def close(self, a, b, rtol=1e-6, atol=1e-9):
        if not self.isnum(a) or not self.isnum(b):
            return False
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return abs(float(a) - float(b)) <= atol + rtol * max(
                abs(float(a)), abs(float(b)))
        if not isinstance(a, Sym):
            a, b = b, a
        if isinstance(b, Sym) and a.t == b.t:
            return True
        d = a - b
        if isinstance(d, Sym) and d.const is not None and d.const == 0:
            return True
        m = self.absbound(b, rtol, atol)
        return sym.band(d <= m, -d <= m)

    def absbound(self, b, rtol, atol):
        if isinstance(b, Sym):
            if b.const is not None:
                return abs(b.const) * sym.frac(rtol) + sym.frac(atol)
            e = sym.ENGINE
            if e is not None:
                lo, hi = e.bounds.sym(b)
                if lo >= 0:
                    return b * rtol + atol
                if hi <= 0:
                    return -b * rtol + atol
            return atol + rtol * sym.ite(b >= 0, b, -b)
        return abs(b) * rtol + atol

    def le(self, a, b, rtol=1e-7, atol=1e-9):
        """a <= b up to rounding."""
        if not self.isnum(a) or not self.isnum(b):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return a - b <= atol
        return float(a) <= float(b) + atol + rtol * max(abs(float(a)),
                                                        abs(float(b)))

    def prove_close(self, xs, ys, label, rtol=1e-6, atol=1e-9):
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            self.prove(False, label + ': length %d instead of %d'
                       % (len(xs), len(ys)))
            return
        for i, (x, y) in enumerate(zip(xs, ys)):
            if isinstance(x, Sym) and isinstance(y, Sym) and x.t == y.t:
                self.trivial()
                continue
            self.prove(self.close(x, y, rtol, atol), label)

    def prove_le(self, xs, ys, label, **k):
        xs = list(xs)
        ys = [ys] * len(xs) if not isinstance(ys, (list, np.ndarray, tuple)) \
            else list(ys)
        for x, y in zip(xs, ys):
            self.prove(self.le(x, y, **k), label)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]


class SymCtx(Base):
    sym = True

    def __init__(self, engine, tier):
        self.e = engine
        self.tier = tier
        self.tmp = '/nonexistent/symx'

    def real(self, name, lo=None, hi=None):
        return self.e.declare(name, lo, hi)

    def int(self, name, lo, hi):
        return self.e.declare(name, lo, hi, True)

    def bool(self, name):
        return self.e.declare_bool(name)

    def arr(self, xs):
        from .nparr import objarr, wrap
        return wrap(objarr(list(xs)))

    def nd(self, xs):
        """nested list -> array"""
        from .nparr import objarr, wrap
        return wrap(objarr(xs))

    def assume(self, c):
        self.e.assume(c)

    def prove(self, c, label):
        self.e.prove(c, label)

    def trivial(self):
        self.e.obligations += 1
        self.e.discharged += 1
        self.e.syntactic += 1

    def observe(self, name, v):
        self.e.obs[name] = v

    def __bool__(self):
        return True


class RealCtx(Base):
    sym = False

    def __init__(self, env, tier, tmp):
        self.env = env
        self.tier = tier
        self.tmp = tmp
        self.failed = {}
        self.passed = 0
        self.obs = {}

    def real(self, name, lo=None, hi=None):
        return float(self.env[name])

    def int(self, name, lo, hi):
        return int(self.env[name])

    def bool(self, name):
        return bool(self.env[name])

    def arr(self, xs):
        return np.array(list(xs), dtype=float)

    def nd(self, xs):
        return np.array(xs, dtype=float)

    def assume(self, c):
        if not builtins.bool(c):
            raise Skip()

    def prove(self, c, label):
        if builtins.bool(c):
            self.passed += 1
        else:
            self.failed[label] = self.failed.get(label, 0) + 1

    def trivial(self):
        self.passed += 1

    def observe(self, name, v):
        self.obs[name] = v
