"""Branch and prune over boxes of the input variables (interval constraint
propagation for the transcendental terms that SMT solvers leave opaque).

`refute(cons, bounds)` splits the box of the variables of `cons` and discards
every part on which interval evaluation, rounded outwards, shows one of the
constraints false.  When nothing is left the constraints have no solution; when
they hold throughout a part, or at its centre, that is a solution.  All pending
boxes are evaluated at once with numpy.
"""
import time
from fractions import Fraction

import numpy as np

from . import sym
from .sym import ATOMS, SBool

INF = np.inf
EPS = 1e-13


def out(lo, hi):
    a = lo - np.abs(lo) * EPS
    b = hi + np.abs(hi) * EPS
    a = np.where(a != a, -INF, a)
    b = np.where(b != b, INF, b)
    return a, b


def mul(a, b):
    ps = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    ps = [np.where(p != p, 0.0, p) for p in ps]
    return out(np.minimum(np.minimum(ps[0], ps[1]),
                          np.minimum(ps[2], ps[3])),
               np.maximum(np.maximum(ps[0], ps[1]),
                          np.maximum(ps[2], ps[3])))


def ipow(a, n):
    if n == 1:
        return a
    lo, hi = a
    if n < 0:
        pos, neg = lo > 0, hi < 0
        ok = pos | neg
        rl = np.where(ok, 1.0 / np.where(ok, hi, 1.0), -INF)
        rh = np.where(ok, 1.0 / np.where(ok, lo, 1.0), INF)
        # one-sided zero
        z1 = (lo == 0) & (hi > 0)
        rl = np.where(z1, 1.0 / np.where(z1, hi, 1.0), rl)
        z2 = (hi == 0) & (lo < 0)
        rh = np.where(z2, 1.0 / np.where(z2, lo, -1.0), rh)
        return ipow(out(rl, rh), -n)
    x, y = lo ** n, hi ** n
    if n % 2 == 0:
        m = np.where((lo <= 0) & (hi >= 0), 0.0, np.minimum(x, y))
        return out(m, np.maximum(x, y))
    return out(x, y)


def prop(p, q):
    """p is a positive multiple of q."""
    if len(p.t) != len(q.t):
        return False
    r = None
    for m, c in q.t.items():
        d = p.t.get(m)
        if d is None:
            return False
        k = d / c
        if k <= 0 or (r is not None and k != r):
            return False
        r = k
    return True


class Eval:
    """Interval evaluation on B boxes: env name -> (lo, hi) arrays."""

    def __init__(self, env, n):
        self.env, self.n = env, n
        self.memo = {}
        self.amemo = {}
        self.bmemo = {}

    def sym(self, x):
        key = id(x.t)
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        if x.src is not None and len(x.t) > 60:
            lo, hi = out(*self.src(x.src))
            self.memo[key] = ((lo, hi), x)
            return lo, hi
        lo = hi = 0.0
        first = True
        for m, c in x.t.items():
            f = float(c)
            if not m:
                iv = (f - abs(f) * EPS, f + abs(f) * EPS)
            else:
                iv = None
                for i, e in m:
                    p = ipow(self.atom(ATOMS[i]), e)
                    iv = p if iv is None else mul(iv, p)
                iv = (iv[0] * f, iv[1] * f) if f > 0 else (iv[1] * f,
                                                           iv[0] * f)
                iv = out(*iv)
            if first:
                lo, hi = iv
                first = False
            else:
                lo, hi = lo + iv[0], hi + iv[1]
        lo, hi = out(np.asarray(lo, float), np.asarray(hi, float))
        if x.src is not None:
            a, b = out(*self.src(x.src))
            lo, hi = np.maximum(lo, a), np.minimum(hi, b)
        self.memo[key] = ((lo, hi), x)
        return lo, hi

    def src(self, s):
        op, a, b = s
        if op == 'sum':
            ps = [self.sym(t) for t in a]
            return sum(p[0] for p in ps), sum(p[1] for p in ps)
        p = self.sym(a)
        if op == 'hull':
            q = self.sym(b)
            return np.minimum(p[0], q[0]), np.maximum(p[1], q[1])
        if op == '+':
            q = self.sym(b)
            return p[0] + q[0], p[1] + q[1]
        if op == '*':
            return mul(p, self.sym(b))
        if op == 'k':
            f = float(b)
            return (p[0] * f, p[1] * f) if f > 0 else (p[1] * f, p[0] * f)
        return ipow(p, b)

    def atom(self, a):
        r = self.amemo.get(a.id)
        if r is None:
            r = self._atom(a)
            lo, hi = r
            lo = np.where(lo != lo, -INF, lo)
            hi = np.where(hi != hi, INF, hi)
            r = (lo, hi)
            self.amemo[a.id] = r
        return r

    def _atom(self, a):
        if a.kind == 'var':
            return self.env[a.name]
        if a.kind == 'alias':
            return self.sym(a.args[0])
        if a.kind == 'ite':
            c, x, y = a.args
            t = self.truth(c)
            p, q = self.sym(x), self.sym(y)
            lo, hi = np.minimum(p[0], q[0]), np.maximum(p[1], q[1])
            if c.op in ('<=', '<'):
                k = c.args[0]
                d = y - x
                if d.t and prop(k, d):
                    lo, hi = np.maximum(p[0], q[0]), np.maximum(p[1], q[1])
                elif d.t and prop(k, -d):
                    lo, hi = np.minimum(p[0], q[0]), np.minimum(p[1], q[1])
            lo = np.where(t == 1, p[0], np.where(t == 0, q[0], lo))
            hi = np.where(t == 1, p[1], np.where(t == 0, q[1], hi))
            return lo, hi
        n = a.name
        lo, hi = self.sym(a.args[0])
        if n == 'floor':
            return np.floor(lo - 1e-9), np.floor(hi + 1e-9)
        if n == 'exp':
            x, y = np.exp(lo), np.exp(hi)
            return np.maximum(x * (1 - 1e-12), 0.0), y * (1 + 1e-12)
        if n == 'log':
            x = np.log(np.maximum(lo, 0.0))
            y = np.log(np.maximum(hi, 0.0))
            return x - np.abs(x) * 1e-12 - 1e-14, y + np.abs(y) * 1e-12 + 1e-14
        if n == 'sqrt':
            return (np.sqrt(np.maximum(lo, 0.0)) * (1 - 1e-12),
                    np.sqrt(np.maximum(hi, 0.0)) * (1 + 1e-12))
        if n == 'arccos':
            return (np.maximum(np.arccos(np.clip(hi, -1, 1)) - 1e-12, 0.0),
                    np.arccos(np.clip(lo, -1, 1)) + 1e-12)
        if n == 'arcsin':
            return (np.arcsin(np.clip(lo, -1, 1)) - 1e-12,
                    np.arcsin(np.clip(hi, -1, 1)) + 1e-12)
        if n == 'arctan':
            return np.arctan(lo) - 1e-12, np.arctan(hi) + 1e-12
        if n == 'tanh':
            return np.tanh(lo) - 1e-12, np.tanh(hi) + 1e-12
        if n in ('sin', 'cos'):
            return self.trig(n, lo, hi)
        if n in ('pow', 'pow2', 'powc'):
            return self.power((lo, hi), self.sym(a.args[1]))
        o = np.ones(self.n)
        return -INF * o, INF * o

    @staticmethod
    def trig(n, lo, hi):
        f = np.sin if n == 'sin' else np.cos
        lo, hi = np.broadcast_arrays(lo, hi)
        bad = ~np.isfinite(lo) | ~np.isfinite(hi) | (hi - lo >= 2 * np.pi)
        l = np.where(bad, 0.0, lo)
        h = np.where(bad, 0.0, hi)
        a, b = f(l), f(h)
        mn, mx = np.minimum(a, b) - 1e-12, np.maximum(a, b) + 1e-12
        sh = 0.0 if n == 'cos' else np.pi / 2

        def has(s):          # s + 2 pi k in [l, h]
            k = np.ceil((l - s - 1e-9) / (2 * np.pi))
            return s + 2 * np.pi * k <= h + 1e-9
        mx = np.where(bad | has(sh), 1.0, np.minimum(mx, 1.0))
        mn = np.where(bad | has(sh + np.pi), -1.0, np.maximum(mn, -1.0))
        return mn, mx

    @staticmethod
    def power(x, y):
        lo, hi = np.maximum(x[0], 0.0), np.maximum(x[1], 0.0)
        cs = []
        for b in (lo, hi):
            for e in y:
                with np.errstate(all='ignore'):
                    c = np.power(b, e)
                cs.append(np.where(c != c, INF, c))
        a = cs[0]
        b = cs[0]
        for c in cs[1:]:
            a, b = np.minimum(a, c), np.maximum(b, c)
        one = (lo < 1) & (hi > 1)
        a = np.where(one, np.minimum(a, 1.0), a)
        b = np.where(one, np.maximum(b, 1.0), b)
        return np.maximum(a * (1 - 1e-11), 0.0), b * (1 + 1e-11)

    def truth(self, b):
        """array: 1 true, 0 false, -1 unknown"""
        if not isinstance(b, SBool):
            return np.full(self.n, int(bool(b)))
        r = self.bmemo.get(id(b))
        if r is not None:
            return r
        op = b.op
        if op in ('<', '<=', '=='):
            lo, hi = self.sym(b.args[0])
            if op == '<':
                r = np.where(hi < 0, 1, np.where(lo >= 0, 0, -1))
            elif op == '<=':
                r = np.where(hi <= 0, 1, np.where(lo > 0, 0, -1))
            else:
                r = np.where((lo > 0) | (hi < 0), 0,
                             np.where((lo == 0) & (hi == 0), 1, -1))
        elif op == 'and':
            ts = [self.truth(a) for a in b.args]
            f = np.zeros(self.n, bool)
            u = np.zeros(self.n, bool)
            for t in ts:
                f = f | (t == 0)
                u = u | (t < 0)
            r = np.where(f, 0, np.where(u, -1, 1))
        elif op == 'or':
            ts = [self.truth(a) for a in b.args]
            f = np.zeros(self.n, bool)
            u = np.zeros(self.n, bool)
            for t in ts:
                f = f | (t == 1)
                u = u | (t < 0)
            r = np.where(f, 1, np.where(u, -1, 0))
        elif op == 'not':
            t = self.truth(b.args[0])
            r = np.where(t < 0, -1, 1 - t)
        else:
            lo, hi = self.env[b.args[0]]
            r = np.where(lo > 0.5, 1, np.where(hi < 0.5, 0, -1))
        r = np.broadcast_to(r, (self.n,))
        self.bmemo[id(b)] = r
        return r


def points(cons, names, disc, boolean, lo, hi):
    """The first of the points (boxes of no width) that satisfies cons."""
    x = (lo + hi) / 2
    x = np.where(disc, np.floor(x), x)
    ev = Eval({nm: (x[:, j], x[:, j]) for j, nm in enumerate(names)}, len(x))
    sure = np.ones(len(x), bool)
    for c in cons:
        sure &= ev.truth(c) == 1
        if not sure.any():
            return None
    i = int(np.argmax(sure))
    return {nm: bool(x[i, j] > 0.5) if boolean[j] else Fraction(float(x[i, j]))
            for j, nm in enumerate(names)}


def refute(cons, bounds, isint, seconds=1.0, max_boxes=60000, batch=512):
    """('unsat', n) when no box can satisfy all of cons, ('sat', values) when
    the values do, ('maybe', n) otherwise."""
    names = set()
    for c in cons:
        names |= sym.free_vars(c)
    names = sorted(names)
    lo0, hi0, kind = [], [], []
    for n in names:
        r = bounds.ranges.get(n)
        if r is None:
            if n in isint:
                return 'maybe', 0
            lo0.append(0.0)
            hi0.append(1.0)
            kind.append('b')
            continue
        if r[0] is None or r[1] is None:
            return 'maybe', 0
        lo0.append(float(r[0]))
        hi0.append(float(r[1]))
        kind.append('i' if isint.get(n) else 'r')
    lo0, hi0 = np.array(lo0), np.array(hi0)
    if not names:
        return 'maybe', 0
    w0 = np.maximum(hi0 - lo0, 1e-300)
    t0 = time.time()
    disc = np.array([k != 'r' for k in kind])
    boolean = [k == 'b' for k in kind]
    with np.errstate(all='ignore'):
        # a spread of points over the whole box, its corners included
        u = np.random.RandomState(1).random_sample((batch, len(names)))
        u[batch // 2:] = np.round(u[batch // 2:] * 2) / 2
        p = lo0 + u * (hi0 - lo0)
        env = points(cons, names, disc, boolean, p, p)
    if env is not None:
        return 'sat', env
    if len(names) > 8:
        return 'maybe', 0
    pend = [(lo0[None, :], hi0[None, :])]
    done = 0
    with np.errstate(all='ignore'):
        while pend:
            lo, hi = pend.pop()
            if len(lo) > batch:
                pend.append((lo[batch:], hi[batch:]))
                lo, hi = lo[:batch], hi[:batch]
            n = len(lo)
            done += n
            if done > max_boxes or time.time() - t0 > seconds:
                return 'maybe', done
            ev = Eval({nm: (lo[:, j], hi[:, j])
                       for j, nm in enumerate(names)}, n)
            alive = np.ones(n, bool)
            sure = np.ones(n, bool)
            for c in cons:
                t = ev.truth(c)
                alive &= t != 0
                sure &= t == 1
                if not alive.any():
                    break
            if (alive & sure).any():          # a whole box satisfies them
                k = alive & sure
                env = points(cons, names, disc, boolean, lo[k], hi[k])
                return ('maybe', done) if env is None else ('sat', env)
            lo, hi = lo[alive], hi[alive]
            if not len(lo):
                continue
            env = points(cons, names, disc, boolean, lo, hi)
            if env is not None:
                return 'sat', env
            w = (hi - lo) / w0
            w = np.where(disc, np.where(hi - lo < 1, -1.0, w + 1e-6), w)
            j = np.argmax(w, axis=1)
            k = np.arange(len(lo))
            wj = w[k, j]
            if (wj < 1e-7).any():
                return 'maybe', done
            mid = (lo[k, j] + hi[k, j]) / 2
            d = disc[j]
            l2, h1 = lo.copy(), hi.copy()
            h1[k, j] = np.where(d, np.floor(mid), mid)
            l2[k, j] = np.where(d, np.floor(mid) + 1, mid)
            # depth first on half of the boxes keeps memory small
            pend.append((np.concatenate([lo, l2]), np.concatenate([h1, hi])))
    return 'unsat', done
