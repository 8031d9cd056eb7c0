"""Rigorous-enough interval arithmetic over Syms (floats, outward inflation).

Used to decide branches cheaply and to hand the SMT solver numeric bounds of
the transcendental applications it sees as opaque reals.
"""
import math
from fractions import Fraction

from . import sym
from .sym import ATOMS, SBool, Sym

INF = float('inf')
EPS = 1e-13


def out(lo, hi):
    if lo == hi and lo == int(lo) if abs(lo) < 2 ** 53 and lo == lo else False:
        return lo, hi
    a = lo - abs(lo) * EPS if lo > -INF else lo
    b = hi + abs(hi) * EPS if hi < INF else hi
    return a, b


def imul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return out(min(ps), max(ps))


def ipow(a, n):
    if n == 1:
        return a
    lo, hi = a
    if n < 0:
        if lo <= 0 <= hi:
            if lo == 0 and hi > 0:
                p = ipow((1 / hi if hi < INF else 0.0, INF), -n)
                return p
            if hi == 0 and lo < 0:
                return ipow((-INF, 1 / lo if lo > -INF else 0.0), -n)
            return (-INF, INF)
        return ipow(out(1 / hi, 1 / lo), -n)
    try:
        x, y = lo ** n, hi ** n
    except OverflowError:
        return (-INF, INF)
    if n % 2 == 0:
        if lo >= 0:
            return out(x, y)
        if hi <= 0:
            return out(y, x)
        return out(0.0, max(x, y))
    return out(x, y)


class Bounds:
    """Interval evaluation given variable ranges."""

    def __init__(self, ranges):
        self.ranges = ranges      # name -> (lo, hi), None for unbounded
        self.memo = {}
        self.amemo = {}
        self.withsrc = set()

    def sym(self, x):
        k = x.const
        if k is not None:
            f = float(k)
            return out(f, f)
        key = x.key()
        r = self.memo.get(key)
        if r is not None and (x.src is None or key in self.withsrc):
            return r
        old = r
        lo = hi = 0.0
        for m, c in x.t.items():
            f = float(c)
            iv = out(f, f)
            for i, e in m:
                iv = imul(iv, ipow(self.atom(ATOMS[i]), e))
            lo, hi = out(lo + iv[0], hi + iv[1])
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
        if x.src is not None:
            a, b = self.src(x.src)
            # the intersection of two enclosures (never empty)
            if a <= hi and b >= lo:
                lo, hi = max(lo, a), min(hi, b)
            self.withsrc.add(key)
        if old is not None and old[0] <= hi and old[1] >= lo:
            lo, hi = max(lo, old[0]), min(hi, old[1])
        r = (lo, hi)
        if lo < 0 < hi and 1 < len(x.t) < 40 and any(
                ATOMS[i].kind != 'var' for m in x.t for i, _ in m):
            r = self.tight(x, lo, hi)
        self.memo[key] = r
        return r

    def tight(self, x, lo, hi):
        """Tighten the range of a term of at most two variables by splitting
        the variables' ranges."""
        names = sorted(sym.free_vars(x))
        if not 1 <= len(names) <= 2:
            return lo, hi
        rs = [self.ranges.get(n) for n in names]
        if any(r is None or r[0] is None or r[1] is None for r in rs):
            return lo, hi
        import numpy as np

        from .icp import Eval
        k = 400 if len(names) == 1 else 40
        ax = []
        for r in rs:
            e = np.linspace(float(r[0]), float(r[1]), k + 1)
            e[0], e[-1] = float(r[0]), float(r[1])
            ax.append((e[:-1], e[1:]))
        if len(ax) == 2:
            ax = [(np.repeat(ax[0][0], k), np.repeat(ax[0][1], k)),
                  (np.tile(ax[1][0], k), np.tile(ax[1][1], k))]
        with np.errstate(all='ignore'):
            a, b = Eval(dict(zip(names, ax)), len(ax[0][0])).sym(x)
        return max(lo, float(np.min(a))), min(hi, float(np.max(b)))

    def exact(self, x):
        """Exact range of an affine term of bounded variables."""
        lo = hi = Fraction(0)
        for m, c in x.t.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) > 1 or m[0][1] != 1:
                return None
            a = ATOMS[m[0][0]]
            if a.kind != 'var':
                return None
            r = self.ranges.get(a.name)
            if r is None or r[0] is None or r[1] is None:
                return None
            p, q = c * sym.frac(r[0]), c * sym.frac(r[1])
            lo += min(p, q)
            hi += max(p, q)
        return lo, hi

    def src(self, s):
        op, a, b = s
        if op == 'sum':
            ps = [self.sym(t) for t in a]
            r = out(sum(p[0] for p in ps), sum(p[1] for p in ps))
            return (-INF if r[0] != r[0] else r[0],
                    INF if r[1] != r[1] else r[1])
        p = self.sym(a)
        if op == 'hull':
            q = self.sym(b)
            return min(p[0], q[0]), max(p[1], q[1])
        if op == '+':
            q = self.sym(b)
            r = out(p[0] + q[0], p[1] + q[1])
        elif op == '*':
            r = imul(p, self.sym(b))
        elif op == 'k':
            r = imul(p, out(float(b), float(b)))
        else:
            r = ipow(p, b)
        return (-INF if r[0] != r[0] else r[0],
                INF if r[1] != r[1] else r[1])

    def atom(self, a):
        r = self.amemo.get(a.id)
        if r is not None:
            return r
        r = self._atom(a)
        lo, hi = r
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        self.amemo[a.id] = (lo, hi)
        return lo, hi

    def _atom(self, a):
        if a.kind == 'var':
            lo, hi = self.ranges.get(a.name, (None, None))
            return (-INF if lo is None else float(lo),
                    INF if hi is None else float(hi))
        if a.kind == 'alias':
            lo, hi = self.sym(a.args[0])
            if lo <= 0 <= hi:
                lo, hi = self.tight(a.args[0], lo, hi)
            return lo, hi
        if a.kind == 'ite':
            c, x, y = a.args
            d = self.truth(c)
            if d is True:
                return self.sym(x)
            if d is False:
                return self.sym(y)
            p, q = self.sym(x), self.sym(y)
            # max/min shapes: ite(x >= y, x, y)
            if c.op in ('<=', '<'):
                k = c.args[0]
                dxy = (y - x)
                if dxy.t and self._prop(k, dxy):       # y - x <= 0 -> x
                    return (max(p[0], q[0]), max(p[1], q[1]))
                if dxy.t and self._prop(k, -dxy):
                    return (min(p[0], q[0]), min(p[1], q[1]))
            return (min(p[0], q[0]), max(p[1], q[1]))
        n = a.name
        x = self.sym(a.args[0])
        lo, hi = x
        if n == 'floor':
            if lo > -INF and hi < INF and \
                    math.floor(lo - 1e-9) != math.floor(hi + 1e-9):
                lo, hi = self.tight(a.args[0], lo, hi)
            return (math.floor(lo - 1e-9) if lo > -INF else -INF,
                    math.floor(hi + 1e-9) if hi < INF else INF)
        if n == 'exp':
            return self.mono(math.exp, lo, hi, 0.0, INF)
        if n == 'log':
            if hi <= 0:
                return (-INF, INF)
            return self.mono(math.log, max(lo, 0.0), hi, -INF, INF)
        if n == 'sqrt':
            return self.mono(math.sqrt, max(lo, 0.0), max(hi, 0.0), 0.0, INF)
        if n == 'arccos':
            lo, hi = max(lo, -1.0), min(hi, 1.0)
            return (max(0.0, math.acos(min(hi, 1.0)) - 1e-12),
                    math.acos(max(lo, -1.0)) + 1e-12)
        if n == 'arcsin':
            lo, hi = max(lo, -1.0), min(hi, 1.0)
            return math.asin(lo) - 1e-12, math.asin(hi) + 1e-12
        if n == 'arctan' or n == 'tanh':
            f = math.atan if n == 'arctan' else math.tanh
            b = math.pi / 2 if n == 'arctan' else 1.0
            return self.mono(f, lo, hi, -b, b)
        if n in ('sin', 'cos'):
            return self.trig(n, lo, hi)
        if n in ('pow', 'pow2', 'powc'):
            return self.power(x, self.sym(a.args[1]))
        return (-INF, INF)

    @staticmethod
    def _prop(p, q):
        """p is a positive multiple of q."""
        if len(p.t) != len(q.t):
            return False
        r = None
        for m, c in q.t.items():
            d = p.t.get(m)
            if d is None:
                return False
            k = d / c
            if k <= 0 or (r is not None and k != r):
                return False
            r = k
        return True

    @staticmethod
    def mono(f, lo, hi, fmin, fmax):
        def g(v, side):
            if v == -INF:
                try:
                    return {math.exp: 0.0, math.atan: -math.pi / 2,
                            math.tanh: -1.0}.get(f, fmin)
                except Exception:
                    return fmin
            if v == INF:
                return {math.atan: math.pi / 2, math.tanh: 1.0}.get(f, fmax)
            try:
                return f(v)
            except OverflowError:
                return INF
            except ValueError:
                return fmin
        a, b = g(lo, 0), g(hi, 1)
        a, b = out(a, b)
        a = a - abs(a) * 1e-12
        b = b + abs(b) * 1e-12
        return max(a, fmin), min(b, fmax)

    @staticmethod
    def trig(n, lo, hi):
        if lo == -INF or hi == INF or hi - lo >= 2 * math.pi:
            return (-1.0, 1.0)
        f = math.sin if n == 'sin' else math.cos
        a, b = f(lo), f(hi)
        mn, mx = min(a, b), max(a, b)
        # extrema at k*pi (cos) or k*pi + pi/2 (sin)
        sh = 0.0 if n == 'cos' else math.pi / 2
        k = math.ceil((lo - sh) / math.pi - 1e-9)
        while sh + k * math.pi <= hi + 1e-9:
            if k % 2 == 0:
                mx = 1.0
            else:
                mn = -1.0
            k += 1
        return max(-1.0, mn - 1e-12), min(1.0, mx + 1e-12)

    @staticmethod
    def power(x, y):
        lo, hi = max(x[0], 0.0), max(x[1], 0.0)
        c = []
        for b in (lo, hi):
            for e in y:
                try:
                    if b == INF or abs(e) == INF:
                        if b == INF and e > 0:
                            c.append(INF)
                        elif b == INF and e < 0:
                            c.append(0.0)
                        elif b == INF:
                            c.append(1.0)
                        elif b < 1:
                            c.append(0.0 if e > 0 else INF)
                        elif b == 1:
                            c.append(1.0)
                        else:
                            c.append(INF if e > 0 else 0.0)
                    elif b == 0 and e < 0:
                        c.append(INF)
                    else:
                        c.append(b ** e)
                except OverflowError:
                    c.append(INF)
        if lo < 1 < hi:
            c.append(1.0)
        a, b = min(c), max(c)
        return max(0.0, a - abs(a) * 1e-11), b + abs(b) * 1e-11

    def truth(self, b):
        """True / False / None."""
        if not isinstance(b, SBool):
            return bool(b)
        op = b.op
        if op in ('<', '<=', '=='):
            lo, hi = self.sym(b.args[0])
            if op == '<':
                if hi < 0:
                    return True
                if lo >= 0:
                    return False
            elif op == '<=':
                if hi <= 0:
                    return True
                if lo > 0:
                    return False
            else:
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
            return None
        if op == 'and':
            r = True
            for a in b.args:
                t = self.truth(a)
                if t is False:
                    return False
                if t is None:
                    r = None
            return r
        if op == 'or':
            r = False
            for a in b.args:
                t = self.truth(a)
                if t is True:
                    return True
                if t is None:
                    r = None
            return r
        if op == 'not':
            t = self.truth(b.args[0])
            return None if t is None else not t
        return None
