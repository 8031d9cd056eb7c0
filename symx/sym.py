"""Symbolic numbers and booleans used to execute the real MetSim code.

A `Sym` is a rational function over atoms, kept as a normal form: a dict that
maps a monomial (tuple of (atom id, integer exponent)) to a Fraction.  Atoms are
input variables, applications of transcendental functions, if-then-else terms,
integer parts, or aliases of larger polynomials.  Arithmetic is exact: MetSim's
floating-point numbers are modelled as reals (literals are read as the decimal
they print as).  `SBool` is a formula over Syms; asking for its truth value
forks the execution (see engine.py).
"""
import math
import numbers
from fractions import Fraction

import numpy as np

ENGINE = None            # set by engine.Engine while a symbolic run is active
LIMIT = 400              # products larger than this go through alias atoms


class Unsupported(Exception):
    """The shim met an operation that it cannot model."""


# ---------------------------------------------------------------- rationals
_fr = {}


def frac(x):
    """Exact rational of a concrete number (decimal reading of floats)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    f = float(x)
    r = _fr.get(f)
    if r is None:
        if f == int(f) if abs(f) < 2 ** 53 else False:
            r = Fraction(int(f))
        else:
            r = Fraction(repr(f))
        if len(_fr) < 2000000:
            _fr[f] = r
    return r


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.number, np.bool_))


def is_nan(x):
    return isinstance(x, (float, np.floating)) and x != x


def is_inf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'isint')

    def __init__(self, id, kind, name, args, isint):
        self.id, self.kind, self.name, self.args, self.isint = \
            id, kind, name, args, isint

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name)


ATOMS = []
_table = {}


def atom(kind, name, args=(), isint=False):
    key = (kind, name, args)
    a = _table.get(key)
    if a is None:
        a = Atom(len(ATOMS), kind, name, args, isint)
        ATOMS.append(a)
        _table[key] = a
    return a


def reset_atoms():
    ATOMS.clear()
    _table.clear()
    _bools.clear()


# ---------------------------------------------------------------- numbers
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n:
            d[i] = n
        else:
            del d[i]
    return tuple(sorted(d.items()))


class Sym:
    __slots__ = ('t', '_h', 'src')
    __array_priority__ = 1e6

    def __init__(self, t, src=None):
        self.t = t
        self._h = None
        # how a larger value was computed: ('+'|'*', a, b), ('k', a, c),
        # ('^', a, n); interval bounds taken along the computation are
        # tighter than those of the expanded polynomial
        self.src = src

    # -- construction / inspection
    @property
    def const(self):
        """The Fraction this is equal to, or None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    @property
    def isint(self):
        for m, c in self.t.items():
            if c.denominator != 1:
                return False
            for i, e in m:
                if e < 0 or not ATOMS[i].isint:
                    return False
        return True

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def same(self, o):
        return self.t == o.t

    # -- arithmetic
    def __add__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if o2 is not o and not isinstance(o2, Sym):
            return o2          # nan/inf
        if isinstance(o2, float):
            return o2
        a, b = self.t, o2.t
        if not a:
            return o2
        if not b:
            return self
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                del r[m]
        if len(r) > 1 and (self.src or o2.src):
            return Sym(r, ('+', self, o2))
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()},
                   self.src and ('k', self, Fraction(-1)))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            return -o2
        return self + (-o2)

    def __rsub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            return o2
        return o2 + (-self)

    def scale(self, c):
        if not c:
            return Sym({})
        if c == 1:
            return self
        return Sym({m: k * c for m, k in self.t.items()},
                   self.src and ('k', self, c))

    def __mul__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            if o2 != o2:
                return o2
            if self.const is not None:
                return float(self.const) * o2
            raise Unsupported('symbolic * inf')
        k = o2.const
        if k is not None:
            return self.scale(k)
        k = self.const
        if k is not None:
            return o2.scale(k)
        a, b = self, o2
        if len(a.t) * len(b.t) > LIMIT:
            if len(a.t) > 1:
                a = alias(a)
            if len(a.t) * len(b.t) > LIMIT:
                b = alias(b)
        r = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mono_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        if len(r) > 1:
            if a is b or a.t == b.t:
                return Sym(r, ('^', a, 2))
            return Sym(r, ('*', a, b))
        return Sym(r)

    __rmul__ = __mul__

    def inverse(self):
        """1/self for a non-zero self."""
        k = self.const
        if k is not None:
            return Sym({(): 1 / k})
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return Sym({tuple((i, -e) for i, e in m): 1 / c})
        # normalise the leading coefficient so that proportional denominators
        # share one alias
        m0 = min(self.t)
        c0 = self.t[m0]
        p = self.scale(1 / c0)
        a = alias(p)
        (m, c), = a.t.items()
        return Sym({tuple((i, -e) for i, e in m): 1 / c0})

    def __truediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            return o2 if o2 != o2 else Sym({})
        return div(self, o2)

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):
            return o2
        return div(o2, self)

    def __floordiv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return floor(self / o2)

    def __rfloordiv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return floor(o2 / self)

    def __mod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return self - o2 * floor(self / o2)

    def __rmod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return o2 - self * floor(o2 / self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def conjugate(self):
        return self

    # -- comparisons
    def __lt__(self, o):
        return cmp(self, o, '<')

    def __le__(self, o):
        return cmp(self, o, '<=')

    def __gt__(self, o):
        return cmp(o, self, '<', swap=True)

    def __ge__(self, o):
        return cmp(o, self, '<=', swap=True)

    def __eq__(self, o):
        return cmp(self, o, '==')

    def __ne__(self, o):
        r = cmp(self, o, '==')
        if r is NotImplemented:
            return True
        return bnot(r)

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- conversions
    def __index__(self):
        k = self.const
        if k is not None:
            if k.denominator != 1:
                raise TypeError('non-integer used as index')
            return int(k)
        return ENGINE.concretize_int(self)

    def __int__(self):
        k = self.const
        if k is not None:
            return int(k)
        return ENGINE.concretize_int(trunc(self))

    def __float__(self):
        k = self.const
        if k is not None:
            return float(k)
        return ENGINE.concretize_real(self)

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, n=None):
        if n:
            s = 10 ** n
            return round_half_even(self * s) / s
        return round_half_even(self)

    def is_integer(self):
        return self == floor(self)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def astype(self, dt, *a, **k):
        return convert(self, dt)

    # numpy object loops call these
    def exp(self):
        return fn('exp', self)

    def log(self):
        return fn('log', self)

    def sqrt(self):
        return fn('sqrt', self)

    def sin(self):
        return fn('sin', self)

    def cos(self):
        return fn('cos', self)

    def arccos(self):
        return fn('arccos', self)

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def rint(self):
        return round_half_even(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.function(func, args, kwargs)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def __format__(self, spec):
        k = self.const
        if k is not None:
            if k.denominator == 1 and spec and spec[-1] in 'dxob':
                return format(int(k), spec)
            return format(float(k), spec)
        return repr(self)

    def __str__(self):
        k = self.const
        if k is not None:
            return str(int(k)) if k.denominator == 1 else str(float(k))
        return repr(self)

    def __repr__(self):
        parts = []
        for m, c in list(self.t.items())[:6]:
            parts.append('*'.join(['%g' % float(c)] + [
                ATOMS[i].name + ('^%d' % e if e != 1 else '')
                for i, e in m]))
        more = '+...(%d)' % len(self.t) if len(self.t) > 6 else ''
        return 'Sym(' + ' + '.join(parts) + more + ')'


numbers.Number.register(Sym)


def mk(a):
    return Sym({((a.id, 1),): Fraction(1)})


def var(name, isint=False):
    return mk(atom('var', name, (), isint))


def lift(x):
    """Sym of a concrete number; nan/inf come back as float; else None."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SBool):
        return ite(x, 1, 0)
    if isinstance(x, np.ndarray) and x.ndim == 0 and not isinstance(x, Sym):
        return lift(x.item())
    if is_num(x):
        if isinstance(x, (float, np.floating)) and not math.isfinite(x):
            return float(x)
        c = frac(x)
        return Sym({(): c}) if c else Sym({})
    return None


def alias(p):
    if len(p.t) == 1 and () not in p.t:
        return p
    if p.const is not None:
        return p
    # content-normalised alias so that c*p and p share it
    m0 = min(p.t)
    c0 = p.t[m0]
    q = p.scale(1 / c0)
    return mk(_alias(q)).scale(c0)


def _alias(q):
    key = ('alias', None, (q.key(),))
    a = _table.get(key)
    if a is None:
        a = Atom(len(ATOMS), 'alias', 'L%d' % len(ATOMS), (q,), False)
        ATOMS.append(a)
        _table[key] = a
    return a


def _fnatom(name, args, isint=False):
    key = ('fn', name, tuple(a.key() for a in args))
    a = _table.get(key)
    if a is None:
        a = Atom(len(ATOMS), 'fn', name, tuple(args), isint)
        ATOMS.append(a)
        _table[key] = a
    return a


def div(a, b):
    k = b.const
    if k is not None:
        if k == 0:
            ka = a.const
            if ka is not None and ka == 0:
                return float('nan')
            if ka is not None:
                return math.copysign(float('inf'), ka)
            # x/0: nan if x == 0 else +-inf
            if bool(a == 0):
                return float('nan')
            return float('inf') if bool(a > 0) else float('-inf')
        return a.scale(1 / k)
    if ENGINE is not None and ENGINE.may_be_zero(b):
        # fork: the engine decides whether the divisor is zero on this path
        if bool(b == 0):
            return div(a, Sym({}))
    return a * b.inverse()


# ---------------------------------------------------------------- functions
FLOATFN = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt,
           'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
           'arccos': math.acos, 'arcsin': math.asin, 'arctan': math.atan,
           'tanh': math.tanh}


def fn(name, x):
    if not isinstance(x, Sym):
        if is_nan(x):
            return x
        with np.errstate(all='ignore'):
            return float(getattr(np, name)(float(x)))
    k = x.const
    if k is not None:
        with np.errstate(all='ignore'):
            return float(getattr(np, name)(float(k)))
    if name in ('sqrt', 'log') and ENGINE is not None:
        if ENGINE.may_be_negative(x):
            if bool(x < 0):
                return float('nan')
        if name == 'log' and ENGINE.may_be_zero(x):
            if bool(x == 0):
                return float('-inf')
    if name in ('arccos', 'arcsin') and ENGINE is not None:
        if ENGINE.may_be_negative(x + 1):
            if bool(x + 1 < 0):
                return float('nan')
        if ENGINE.may_be_negative(1 - x):
            if bool(1 - x < 0):
                return float('nan')
    if name in ('cos', 'sin'):
        r = _trig(name, x)
        if r is not None:
            return r
    if name == 'tan':
        return fn('sin', x) / fn('cos', x)
    if name == 'sqrt':
        # sqrt(c*x) with a rational square root of c is handled by the solver
        pass
    return mk(_fnatom(name, (x,)))


def _trig(name, x):
    """cos/sin of (+-)arccos(y) + constant, expanded exactly."""
    ac = None
    c0 = Fraction(0)
    for m, c in x.t.items():
        if m == ():
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'fn' \
                and ATOMS[m[0][0]].name == 'arccos' and abs(c) == 1 \
                and ac is None:
            ac = (ATOMS[m[0][0]], c)
        else:
            return None
    if ac is None:
        return None
    y = ac[0].args[0]
    cosA = y
    sinA = mk(_fnatom('sqrt', (1 - y * y,))) * ac[1]
    k = float(c0)
    ck, sk = math.cos(k), math.sin(k)
    if name == 'cos':
        return cosA * ck - sinA * sk
    return sinA * ck + cosA * sk


def power(a, b):
    if is_nan(a) or is_nan(b):
        return float('nan')
    sa, sb = lift(a), lift(b)
    if sa is None or sb is None:
        return NotImplemented
    if isinstance(sa, float) or isinstance(sb, float):
        raise Unsupported('power with inf')
    kb = sb.const
    ka = sa.const
    if kb is not None and ka is not None:
        with np.errstate(all='ignore'):
            return float(np.power(float(ka), float(kb)))
    if kb is not None:
        if kb.denominator == 1:
            n = int(kb)
            if n == 0:
                return 1.0
            r = sa
            for i in range(abs(n) - 1):
                r = r * sa
                if r.src:
                    r.src = ('^', sa, i + 2)
            return r if n > 0 else div(Sym({(): Fraction(1)}), r)
        if ENGINE is not None and ENGINE.may_be_negative(sa):
            if bool(sa < 0):
                return float('nan')
        if kb == Fraction(1, 2):
            return fn('sqrt', sa)
        return mk(_fnatom('pow', (sa, sb)))
    if ka is not None and ka > 0:
        # c ** y == exp(y log c)
        return mk(_fnatom('powc', (sa, sb)))
    return mk(_fnatom('pow2', (sa, sb)))


def floor(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    k = x.const
    if k is not None:
        return lift(math.floor(k))
    if x.isint:
        return x
    # pull out the integer part of the constant term
    c = x.t.get((), Fraction(0))
    n = math.floor(c)
    y = x - n if n else x
    if ENGINE is not None:
        b = ENGINE.bounds.exact(y)
        if b is not None and math.floor(b[0]) == math.floor(b[1]):
            return lift(math.floor(b[0]) + n)
    return mk(_fnatom('floor', (y,), True)) + n


def trunc(x):
    if not isinstance(x, Sym):
        return math.trunc(x)
    if x.const is not None:
        return lift(math.trunc(x.const))
    if x.isint:
        return x
    if ENGINE is not None:
        b = ENGINE.bounds.exact(x)
        if b is not None and math.trunc(b[0]) == math.trunc(b[1]):
            return lift(math.trunc(b[0]))
    return ite(x >= 0, floor(x), -floor(-x))


def round_half_even(x):
    if not isinstance(x, Sym):
        return round(x)
    half = Fraction(1, 2)
    if ENGINE is not None:
        b = ENGINE.bounds.exact(x)
        if b is not None:
            n = math.floor(b[0] + half)
            if n - half < b[0] and b[1] < n + half:
                return lift(n)
    f = floor(x)
    d = x - f
    even = (f - 2 * floor(f / 2)) == 0
    return ite(d < half, f, ite(d > half, f + 1, ite(even, f, f + 1)))


def convert(x, dt):
    """astype for one element."""
    if isinstance(x, SBool):
        if dt in (bool, np.bool_) or np.dtype(dt).kind == 'b':
            return x
        return ite(x, 1, 0)
    k = np.dtype(dt).kind
    if isinstance(x, Sym):
        if k in 'iu':
            return trunc(x)
        if k == 'b':
            return x != 0
        return x
    if k in 'iu':
        return int(x)
    if k == 'b':
        return bool(x)
    if k == 'f':
        return float(x)
    return x


# ---------------------------------------------------------------- booleans
def stronger(c, eps):
    """A condition that implies c, by a margin."""
    if not isinstance(c, SBool):
        return c
    if c.op in ('and', 'or'):
        return (band if c.op == 'and' else bor)(
            *[stronger(a, eps) for a in c.args])
    if c.op == '<':
        return c.args[0] + eps < 0
    if c.op == '<=':
        return c.args[0] + eps <= 0
    if c.op == 'not' and isinstance(c.args[0], SBool) and c.args[0].op == '==':
        x = c.args[0].args[0]
        return bor(x > eps, x < -eps)
    return c


class SBool:
    """op in: '<','<=','==' (arg: Sym compared with 0), 'and','or','not',
    'bvar'."""
    __slots__ = ('op', 'args', '_k')
    __array_priority__ = 1e6

    def __init__(self, op, args):
        self.op, self.args = op, args

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return bnot(self ^ o)
        if isinstance(o, Sym) or is_num(o):
            return ite(self, 1, 0) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else bnot(r)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if ENGINE is None:
            raise Unsupported('truth value outside of a symbolic run')
        return ENGINE.branch(self)

    def _num(self):
        return ite(self, 1, 0)

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._num() / o

    def __neg__(self):
        return -self._num()

    def __lt__(self, o):
        return self._num() < o

    def __gt__(self, o):
        return self._num() > o

    def __le__(self, o):
        return self._num() <= o

    def __ge__(self, o):
        return self._num() >= o

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    def logical_not(self):
        return bnot(self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import nparr
        return nparr.ufunc(ufunc, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import nparr
        return nparr.function(func, args, kwargs)

    def __repr__(self):
        return 'SBool(%s,%r)' % (self.op, self.args)


_bools = {}


def _mkb(op, args, key):
    k = (op, key)
    b = _bools.get(k)
    if b is None:
        b = SBool(op, args)
        _bools[k] = b
    elif args and isinstance(args[0], Sym) and args[0].src is not None and \
            b.args[0].src is None:
        b.args[0].src = args[0].src
    return b


def bvar(name):
    return _mkb('bvar', (name,), name)


def cmp(a, b, op, swap=False):
    """a op b."""
    if isinstance(a, (np.ndarray,)) and a.ndim > 0 or \
            isinstance(b, np.ndarray) and b.ndim > 0:
        return NotImplemented
    x, y = lift(a), lift(b)
    if x is None or y is None:
        if op == '==':
            return False
        return NotImplemented
    if isinstance(x, float) or isinstance(y, float):
        if is_nan(x) or is_nan(y):
            return False
        if isinstance(x, float) and isinstance(y, float):
            return {'<': x < y, '<=': x <= y, '==': x == y}[op]
        if op == '==':
            return False
        if isinstance(x, float):
            return x < 0
        return y > 0
    d = x - y
    return _cmp0(d, op)


def _cmp0(d, op):
    k = d.const
    if k is not None:
        return bool({'<': k < 0, '<=': k <= 0, '==': k == 0}[op])
    # normalise: positive leading scale
    m0 = min(d.t)
    c0 = d.t[m0]
    if op == '==':
        d = d.scale(1 / c0)
    else:
        d = d.scale(1 / abs(c0))
    return _mkb(op, (d,), d.key())


def band(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            if x.op == 'and':
                out.extend(x.args)
            else:
                out.append(x)
        elif not bool(x):
            return False
    out = list(dict.fromkeys(out))
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    ids = set(map(id, out))
    for x in out:
        if x.op == 'not' and id(x.args[0]) in ids:
            return False
    return _mkb('and', tuple(out), frozenset(map(id, out)))


def bor(*xs):
    out = []
    for x in xs:
        if isinstance(x, SBool):
            if x.op == 'or':
                out.extend(x.args)
            else:
                out.append(x)
        elif bool(x):
            return True
    out = list(dict.fromkeys(out))
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    ids = set(map(id, out))
    for x in out:
        if x.op == 'not' and id(x.args[0]) in ids:
            return True
    return _mkb('or', tuple(out), frozenset(map(id, out)))


def bnot(x):
    if not isinstance(x, SBool):
        return not bool(x)
    if x.op == 'not':
        return x.args[0]
    if x.op == '<':
        return _cmp0(-x.args[0], '<=')
    if x.op == '<=':
        return _cmp0(-x.args[0], '<')
    return _mkb('not', (x,), id(x))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if bool(c) else b
    if a is b:
        return a
    if ENGINE is not None:
        t = ENGINE.bounds.truth(c)
        if t is not None:
            return a if t else b
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return bor(band(c, a), band(bnot(c), b))
    x, y = lift(a), lift(b)
    if isinstance(x, Sym) and isinstance(y, Sym):
        if x.t == y.t:
            return x
        key = ('ite', None, (id(c), x.key(), y.key()))
        at = _table.get(key)
        if at is None:
            # canonical polarity: not(c) ? b : a is the same atom
            nk = ('ite', None, (id(bnot(c)), y.key(), x.key()))
            at = _table.get(nk)
            if at is None:
                at = Atom(len(ATOMS), 'ite', 'I%d' % len(ATOMS), (c, x, y),
                          x.isint and y.isint)
                ATOMS.append(at)
                _table[key] = at
        return mk(at)
    # nan, inf or non-numeric alternatives: decide now
    return a if bool(c) else b


def smax(a, b):
    if is_nan(a) or is_nan(b):
        return float('nan')
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return max(a, b)
    return ite(lift_ge(a, b), a, b)


def smin(a, b):
    if is_nan(a) or is_nan(b):
        return float('nan')
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return min(a, b)
    return ite(lift_ge(a, b), b, a)


def lift_ge(a, b):
    return cmp(b, a, '<=')


def ssum(xs):
    """Sum of a list without quadratic cost."""
    acc = {}
    for x in xs:
        s = lift(x)
        if s is None:
            r = 0
            for y in xs:
                r = r + y
            return r
        if isinstance(s, float):
            return float('nan') if s != s else s
        for m, c in s.t.items():
            acc[m] = acc.get(m, 0) + c
    r = Sym({m: c for m, c in acc.items() if c})
    if len(r.t) > 2 and any(isinstance(x, Sym) and x.src for x in xs):
        r.src = ('sum', tuple(lift(x) for x in xs), None)
    return r


def has_sym(x):
    return isinstance(x, (Sym, SBool))


# ---------------------------------------------------------------- evaluation
def evaluate(x, env, memo=None):
    """Numeric value of a Sym/SBool under env: variable name -> number."""
    if memo is None:
        memo = {}
    if isinstance(x, SBool):
        k = ('b', id(x))
        if k in memo:
            return memo[k]
        if x.op in ('<', '<=', '=='):
            v = evaluate(x.args[0], env, memo)
            r = {'<': v < 0, '<=': v <= 0, '==': v == 0}[x.op]
        elif x.op == 'and':
            r = all(evaluate(a, env, memo) for a in x.args)
        elif x.op == 'or':
            r = any(evaluate(a, env, memo) for a in x.args)
        elif x.op == 'not':
            r = not evaluate(x.args[0], env, memo)
        else:
            r = bool(env[x.args[0]])
        memo[k] = r
        return r
    if not isinstance(x, Sym):
        return x
    tot = 0
    for m, c in x.t.items():
        p = c
        for i, e in m:
            v = _evatom(ATOMS[i], env, memo)
            try:
                p = p * v ** e
            except (ZeroDivisionError, OverflowError):
                return float('nan')
        tot = tot + p
    return tot


def _evatom(a, env, memo):
    if a.id in memo:
        return memo[a.id]
    if a.kind == 'var':
        if a.name not in env:
            raise KeyError(a.name)
        v = env[a.name]
    elif a.kind == 'alias':
        v = evaluate(a.args[0], env, memo)
    elif a.kind == 'ite':
        c, x, y = a.args
        v = evaluate(x if evaluate(c, env, memo) else y, env, memo)
    else:
        args = [evaluate(z, env, memo) for z in a.args]
        if a.name == 'floor':
            v = math.floor(args[0])
        elif a.name in ('pow', 'pow2', 'powc'):
            try:
                v = float(args[0]) ** float(args[1])
            except (OverflowError, ZeroDivisionError):
                v = float('inf')
        else:
            try:
                v = FLOATFN[a.name](float(args[0]))
            except OverflowError:
                v = float('inf')
            except ValueError:
                v = float('nan')
        if isinstance(v, complex):
            v = float('nan')
    memo[a.id] = v
    return v


def free_vars(x, seen=None, out=None):
    seen = set() if seen is None else seen
    out = set() if out is None else out
    if isinstance(x, SBool):
        if id(x) in seen:
            return out
        seen.add(id(x))
        if x.op == 'bvar':
            out.add(x.args[0])
        else:
            for a in x.args:
                free_vars(a, seen, out)
    elif isinstance(x, Sym):
        for m in x.t:
            for i, _ in m:
                if i in seen:
                    continue
                seen.add(i)
                a = ATOMS[i]
                if a.kind == 'var':
                    out.add(a.name)
                for z in a.args:
                    free_vars(z, seen, out)
    return out


def expand(x):
    """Clear negative exponents and inline aliases: returns a numerator Sym
    that is zero iff x is (given non-zero denominators)."""
    for _ in range(40):
        worst = {}
        for m in x.t:
            for i, e in m:
                if e < 0 and e < worst.get(i, 0):
                    worst[i] = e
        if worst:
            mult = tuple(sorted((i, -e) for i, e in worst.items()))
            x = Sym({mono_mul(m, mult): c for m, c in x.t.items()})
        al = None
        for m in x.t:
            for i, e in m:
                if ATOMS[i].kind == 'alias':
                    al = i
                    break
            if al is not None:
                break
        if al is None:
            return x
        q = ATOMS[al].args[0]
        out = Sym({})
        n = 0
        for m, c in x.t.items():
            e = dict(m).get(al, 0)
            rest = Sym({tuple(p for p in m if p[0] != al): c})
            for _ in range(e):
                n += len(rest.t) * len(q.t)
                if n > 200000:
                    return None
                rr = {}
                for m1, c1 in rest.t.items():
                    for m2, c2 in q.t.items():
                        mm = mono_mul(m1, m2)
                        rr[mm] = rr.get(mm, 0) + c1 * c2
                rest = Sym({k: v for k, v in rr.items() if v})
            out = out + rest
        x = out
    return None
