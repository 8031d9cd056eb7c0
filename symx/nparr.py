"""numpy arrays of symbolic values.

`SA` is an ndarray subclass (object dtype when it holds symbols) whose ufuncs,
array functions, masks and reductions understand Sym/SBool elements.  `NP` is
the stand-in for the `numpy` module that the code under test sees during a
symbolic run: every function delegates to numpy unless symbols are involved.
"""
import builtins
import math
import operator

import numpy as np

from . import sym
from .sym import (SBool, Sym, Unsupported, band, bnot, bor, frac, has_sym,
                  is_nan, is_num, ite, ssum)

_prim = (int, float, str, bytes, bool, np.number, np.bool_, type(None))


def plain(x):
    """SA -> plain ndarray (no copy)."""
    if isinstance(x, Lazy):
        x = x.force()
    if isinstance(x, SA):
        return x.view(np.ndarray)
    return x


def deep_plain(x):
    if isinstance(x, (list, tuple)):
        return type(x)(deep_plain(y) for y in x) if type(x) in (list, tuple) \
            else x
    if is_pandas(x) and getattr(x, 'ndim', None) == 0 and contains(x):
        return np.asarray(x).item()
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return plain(x).item()
    return plain(x)


def wrap(x):
    if type(x) is np.ndarray:
        return x.view(SA)
    if type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if type(x) is list:
        return [wrap(y) for y in x]
    return x


def tidy(a):
    """Object array without symbols -> bool array if all booleans."""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size:
        if kinds(a) <= _BOOLS:
            return a.astype(bool)
    return a


_BOOLS = {bool, np.bool_}
_SYMS = {Sym, SBool}


def kinds(a):
    """Set of the element types of an object array."""
    return set(map(type, np.asarray(plain(a)).ravel().tolist()))


def symat(a):
    """Boolean array: where the elements of an object array are symbolic."""
    a = plain(a)
    return np.fromiter(map(_SYMS.__contains__,
                           map(type, a.ravel().tolist())), dtype=bool,
                       count=a.size).reshape(a.shape)


def contains(x, depth=3):
    if isinstance(x, (Sym, SBool, Lazy)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return False
        return not _SYMS.isdisjoint(kinds(x))
    if depth and isinstance(x, (list, tuple)):
        return any(contains(y, depth - 1) for y in x)
    if depth and hasattr(x, 'dtype') and getattr(x, 'dtype', None) == object \
            and hasattr(x, 'values'):
        return contains(np.asarray(x), 0)
    return False


def is_pandas(x):
    m = type(x).__module__
    return m.startswith('pandas') or m.startswith('xarray')


def objarr(x):
    """Anything array-like -> plain object ndarray."""
    if isinstance(x, Lazy):
        x = x.force()
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        return x if x.dtype == object else x.astype(object)
    if isinstance(x, (Sym, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if is_pandas(x):
        return objarr(np.asarray(x))
    if isinstance(x, (list, tuple)):
        xs = [y.force() if isinstance(y, Lazy) else y for y in x]
        if any(isinstance(y, (list, tuple, np.ndarray)) or is_pandas(y)
               for y in xs):
            xs = [objarr(y) for y in xs]
            return np.stack(xs) if xs else np.empty(0, object)
        a = np.empty(len(xs), dtype=object)
        for i, y in enumerate(xs):
            a[i] = y
        return a
    return np.asarray(x).astype(object)


# ------------------------------------------------------------ element ops
def e_div(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b
    if isinstance(a, SBool) or isinstance(b, SBool):
        return sym.lift(a) / sym.lift(b)
    with np.errstate(all='ignore'):
        return np.float64(a) / np.float64(b)


def e_pow(a, b):
    if has_sym(a) or has_sym(b):
        return sym.power(a, b)
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) \
            and b >= 0:
        return a ** b
    with np.errstate(all='ignore'):
        return np.float64(a) ** np.float64(b)


def e_fn(name):
    def f(x):
        if isinstance(x, SBool):
            x = sym.lift(x)
        return sym.fn(name, x)
    return f


def e_cmp(op):
    py = {'<': operator.lt, '<=': operator.le, '==': operator.eq}[op]

    def f(a, b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            if op == '==':
                return a == b if isinstance(a, SBool) else b == a
            a, b = sym.lift(a), sym.lift(b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            r = sym.cmp(a, b, op)
            E = sym.ENGINE
            if E is not None and isinstance(r, SBool):
                t = E.bounds.truth(r)
                if t is None:
                    t = E.known(r)
                if t is not None:
                    return t
            return r
        return builtins.bool(py(a, b))
    return f


def e_sw(f):
    return lambda a, b: f(b, a)


def e_floor(x):
    return sym.floor(x) if isinstance(x, Sym) else float(np.floor(x))


def e_ceil(x):
    return -sym.floor(-x) if isinstance(x, Sym) else float(np.ceil(x))


def e_trunc(x):
    return sym.trunc(x) if isinstance(x, Sym) else float(np.trunc(x))


def e_rint(x):
    return sym.round_half_even(x) if isinstance(x, Sym) else float(np.rint(x))


def e_isnan(x):
    return is_nan(x)


def e_isfinite(x):
    return True if has_sym(x) else builtins.bool(np.isfinite(x))


def e_sign(x):
    if isinstance(x, Sym):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return np.sign(x)


def e_fmax(a, b):
    if is_nan(a):
        return b
    if is_nan(b):
        return a
    return sym.smax(a, b)


def e_fmin(a, b):
    if is_nan(a):
        return b
    if is_nan(b):
        return a
    return sym.smin(a, b)


def e_floordiv(a, b):
    if has_sym(a) or has_sym(b):
        return sym.lift(a) // b
    return np.floor_divide(a, b)


def e_mod(a, b):
    if has_sym(a) or has_sym(b):
        return sym.lift(a) % b
    return np.mod(a, b)


def e_inv(a):
    if isinstance(a, (SBool, bool, np.bool_)):
        return bnot(a)
    return ~a


def e_num(f):
    def g(a, b):
        if isinstance(a, SBool):
            a = sym.lift(a)
        if isinstance(b, SBool):
            b = sym.lift(b)
        return f(a, b)
    return g


def e_hypot(a, b):
    return sym.fn('sqrt', a * a + b * b) if has_sym(a) or has_sym(b) \
        else np.hypot(a, b)


PI = 3.141592653589793
ELEM = {
    'add': e_num(operator.add), 'subtract': e_num(operator.sub),
    'multiply': e_num(operator.mul),
    'divide': e_div, 'true_divide': e_div, 'power': e_pow,
    'float_power': e_pow,
    'floor_divide': e_floordiv, 'remainder': e_mod, 'mod': e_mod,
    'fmod': lambda a, b: (a - b * sym.trunc(sym.lift(a) / b))
    if has_sym(a) or has_sym(b) else np.fmod(a, b),
    'negative': lambda a: -a, 'positive': lambda a: a,
    'absolute': lambda a: abs(a), 'fabs': lambda a: abs(a),
    'sign': e_sign,
    'exp': e_fn('exp'), 'log': e_fn('log'), 'sqrt': e_fn('sqrt'),
    'sin': e_fn('sin'), 'cos': e_fn('cos'), 'tan': e_fn('tan'),
    'arccos': e_fn('arccos'), 'arcsin': e_fn('arcsin'),
    'arctan': e_fn('arctan'), 'tanh': e_fn('tanh'),
    'square': lambda a: a * a, 'reciprocal': lambda a: e_div(1.0, a),
    'exp2': lambda a: e_pow(2.0, a),
    'expm1': lambda a: e_fn('exp')(a) - 1,
    'log1p': lambda a: e_fn('log')(a + 1),
    'log10': lambda a: e_fn('log')(a) / math.log(10),
    'log2': lambda a: e_fn('log')(a) / math.log(2),
    'deg2rad': lambda a: a * (math.pi / 180), 'radians':
    lambda a: a * (math.pi / 180),
    'rad2deg': lambda a: a * (180 / math.pi), 'degrees':
    lambda a: a * (180 / math.pi),
    'hypot': e_hypot,
    'less': e_cmp('<'), 'less_equal': e_cmp('<='), 'equal': e_cmp('=='),
    'greater': e_sw(e_cmp('<')), 'greater_equal': e_sw(e_cmp('<=')),
    'not_equal': lambda a, b: bnot(e_cmp('==')(a, b)),
    'maximum': lambda a, b: sym.smax(a, b),
    'minimum': lambda a, b: sym.smin(a, b),
    'fmax': e_fmax, 'fmin': e_fmin,
    'logical_and': lambda a, b: band(e_b(a), e_b(b)),
    'logical_or': lambda a, b: bor(e_b(a), e_b(b)),
    'logical_not': lambda a: bnot(e_b(a)),
    'logical_xor': lambda a, b: bor(band(e_b(a), bnot(e_b(b))),
                                    band(bnot(e_b(a)), e_b(b))),
    'bitwise_and': lambda a, b: band(a, b) if isb(a) and isb(b) else a & b,
    'bitwise_or': lambda a, b: bor(a, b) if isb(a) and isb(b) else a | b,
    'bitwise_xor': lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b))
    if isb(a) and isb(b) else a ^ b,
    'invert': e_inv,
    'floor': e_floor, 'ceil': e_ceil, 'trunc': e_trunc, 'rint': e_rint,
    'isnan': e_isnan, 'isfinite': e_isfinite,
    'isinf': lambda x: False if has_sym(x) else builtins.bool(np.isinf(x)),
    'signbit': lambda x: x < 0,
    'clip': lambda x, lo, hi: sym.smin(sym.smax(x, lo), hi),
    'copysign': lambda a, b: ite(b >= 0, abs(a), -abs(a)),
    'conjugate': lambda a: a,
}
BOOLRES = {'less', 'less_equal', 'equal', 'greater', 'greater_equal',
           'not_equal', 'logical_and', 'logical_or', 'logical_not',
           'logical_xor', 'isnan', 'isfinite', 'isinf', 'signbit',
           'bitwise_and', 'bitwise_or', 'invert', 'bitwise_xor'}
NATIVE = {'add', 'subtract', 'multiply', 'negative', 'positive'}


def isb(a):
    return isinstance(a, (SBool, bool, np.bool_))


def e_b(a):
    if isinstance(a, SBool):
        return a
    if isinstance(a, Sym):
        return a != 0
    return builtins.bool(a)


_pyf = {k: np.frompyfunc(v, v.__code__.co_argcount, 1)
        for k, v in ELEM.items()}


def sparse(uf, name, ins):
    """Large arrays with few symbolic elements: numpy for the numbers."""
    n = max(x.size for x in ins if isinstance(x, np.ndarray))
    if n < 400:
        return None
    masks, conc = [], []
    for x in ins:
        if isinstance(x, np.ndarray) and x.dtype == object:
            m = symat(x)
            masks.append(m)
            y = plain(x).copy()
            if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
                y[m] = [True if isinstance(e, SBool) else 1 for e in y[m]]
            else:
                y[m] = 1.0
            y = np.array(y.ravel().tolist()).reshape(x.shape)
            if y.dtype == object or y.dtype.kind not in 'fiub':
                return None
            conc.append(y)
        else:
            conc.append(x)
    m = masks[0] if masks else np.zeros((), bool)
    for k in masks[1:]:
        m = m | k
    bs = np.broadcast_arrays(*[np.asarray(plain(x)) if isinstance(
        x, np.ndarray) else np.asarray(x, dtype=object) for x in ins])
    m = np.broadcast_to(m, bs[0].shape)
    cnt = np.count_nonzero(m)
    if cnt * 2 > m.size:
        return None
    with np.errstate(all='ignore'):
        r = uf(*conc)
    r = np.asarray(r).astype(object)
    if cnt:
        f = ELEM[name]
        for i in zip(*np.nonzero(m)):
            r[i] = f(*[b[i] for b in bs])
    return r


def ufunc(uf, method, *inputs, out=None, where=True, dtype=None, **kw):
    name = uf.__name__
    if any(isinstance(x, Lazy) for x in inputs):
        if method == '__call__' and out is None:
            return Lazy.map(lambda *xs: ufunc(uf, method, *xs), inputs)
        inputs = tuple(x.force() if isinstance(x, Lazy) else x
                       for x in inputs)
    if any(is_pandas(x) for x in inputs) and method == '__call__':
        # let pandas/xarray drive: it will call back with its arrays
        for x in inputs:
            if is_pandas(x):
                r = x.__array_ufunc__(uf, method, *inputs)
                if r is not NotImplemented:
                    return r
    if method == '__call__':
        anyobj = any(isinstance(x, (Sym, SBool)) or
                     (isinstance(x, np.ndarray) and x.dtype == object) or
                     (isinstance(x, (list, tuple)) and contains(x))
                     for x in inputs)
        if not anyobj:
            ins = [plain(x) for x in inputs]
            k2 = {}
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                if isinstance(o, np.ndarray) and o.dtype == object:
                    r = getattr(uf, method)(*ins, **kw)
                    o.view(np.ndarray)[...] = r
                    return o
                k2['out'] = tuple(plain(o) for o in out) if isinstance(
                    out, tuple) else plain(out)
            if where is not True:
                k2['where'] = plain(where)
            if dtype is not None:
                k2['dtype'] = dtype
            r = getattr(uf, method)(*ins, **k2, **kw)
            if out is not None:
                return out[0] if isinstance(out, tuple) else out
            return wrap(r)
        ins = [objarr(x) if not isinstance(x, (Sym, SBool)) and
               not is_num(x) else x for x in inputs]
        if name not in _pyf:
            if name == 'divmod':
                return (ufunc(np.floor_divide, method, *inputs),
                        ufunc(np.remainder, method, *inputs))
            if name == 'modf':
                t = ufunc(np.trunc, method, *inputs)
                return ufunc(np.subtract, method, inputs[0], t), t
            if name == 'matmul':
                return dot(*inputs)
            if name == 'arctan2':
                raise Unsupported('arctan2')
            raise Unsupported('ufunc ' + name)
        if not any(isinstance(x, np.ndarray) for x in ins):
            r = ELEM[name](*[x.item() if isinstance(x, np.generic) else x
                             for x in ins])
        else:
            prepared = []
            for x in ins:
                if isinstance(x, (Sym, SBool)):
                    a = np.empty((), dtype=object)
                    a[()] = x
                    prepared.append(a)
                else:
                    prepared.append(x)
            r = sparse(uf, name, prepared)
            if r is None:
                r = _pyf[name](*prepared)
        if name in BOOLRES:
            r = tidy(r) if isinstance(r, np.ndarray) else r
        if where is not True and where is not np._NoValue:
            w = objarr(where)
            base = objarr(out[0] if isinstance(out, tuple) else out) \
                if out is not None else np.zeros(np.shape(r), dtype=object)
            r = _where(w, objarr(r), base)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, Lazy):
                raise Unsupported('out= with a masked selection')
            if o.dtype != object:
                if contains(r):
                    raise Unsupported('symbolic result into a %s buffer'
                                      % o.dtype)
                o.view(np.ndarray)[...] = np.asarray(r).astype(o.dtype)
                return o
            o.view(np.ndarray)[...] = r
            return o
        return wrap(r)
    if method == 'reduce':
        a = inputs[0]
        axis = kw.pop('axis', 0)
        keep = kw.pop('keepdims', False)
        kw.pop('initial', None)
        if not contains(a):
            k2 = dict(kw)
            if isinstance(a, np.ndarray) and a.dtype == object:
                a = concrete(a)
            k2.update(axis=axis, keepdims=keep)
            if where is not True:
                k2['where'] = plain(where)
            r = getattr(uf, method)(plain(a), **k2)
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return wrap(r)
        if where is not True:
            raise Unsupported('reduce with where=')
        f = {'add': ssum, 'multiply': _prod, 'maximum': _redmax,
             'minimum': _redmin, 'logical_and': lambda xs: band(
                 *[e_b(x) for x in xs]),
             'logical_or': lambda xs: bor(*[e_b(x) for x in xs]),
             'bitwise_and': lambda xs: band(*xs),
             'bitwise_or': lambda xs: bor(*xs),
             'fmax': lambda xs: _redmax([x for x in xs if not is_nan(x)]),
             'fmin': lambda xs: _redmin([x for x in xs if not is_nan(x)]),
             }.get(name)
        if f is None:
            raise Unsupported('reduce ' + name)
        r = reduce_axis(f, objarr(a), axis, keep)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    if method == 'accumulate':
        a = objarr(inputs[0])
        axis = kw.pop('axis', 0)
        f = ELEM[name]
        return wrap(_accumulate(f, a, axis))
    if method == 'outer':
        a, b = objarr(inputs[0]), objarr(inputs[1])
        return ufunc(uf, '__call__', a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'reduceat':
        a, idx = objarr(inputs[0]), list(np.asarray(plain(inputs[1]),
                                                    dtype=int))
        axis = kw.pop('axis', 0)
        if name != 'add' or axis not in (0, -1) or a.ndim != 1:
            raise Unsupported('reduceat')
        res = np.empty(len(idx), dtype=object)
        for n, i in enumerate(idx):
            j = idx[n + 1] if n + 1 < len(idx) else len(a)
            res[n] = ssum(list(a[i:j])) if j > i else a[i]
        return wrap(res)
    if method == 'at':
        a, idx = inputs[0], np.atleast_1d(index_array(inputs[1]))
        vals = objarr(inputs[2]) if len(inputs) > 2 else None
        if vals is not None:
            vals = np.broadcast_to(vals, idx.shape)
        f = ELEM[name]
        base = plain(a)
        if base.dtype != object and contains(vals):
            raise Unsupported('ufunc.at into a %s buffer' % base.dtype)
        for n, i in enumerate(idx):
            base[i] = f(base[i], vals[n]) if vals is not None else f(base[i])
        return None
    raise Unsupported('ufunc method ' + method)


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def _redmax(xs):
    r = xs[0]
    for x in xs[1:]:
        r = sym.smax(r, x)
    return r


def _redmin(xs):
    r = xs[0]
    for x in xs[1:]:
        r = sym.smin(r, x)
    return r


def reduce_axis(f, a, axis, keep=False):
    a = a.view(np.ndarray)
    if axis is None or a.ndim == 0:
        r = f(list(a.ravel()))
        if keep:
            q = np.empty((1,) * a.ndim, dtype=object)
            q[...] = r
            return wrap(q)
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(x % a.ndim for x in axes)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes))
    shp = tuple(a.shape[i] for i in rest)
    b = b.reshape(shp + (-1,))
    out = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        out[idx] = f(list(b[idx]))
    if not shp:
        r = out[()]
        return r
    if keep:
        out = out.reshape([1 if i in axes else a.shape[i]
                           for i in range(a.ndim)])
    return wrap(tidy(out))


def _accumulate(f, a, axis=0):
    a = np.moveaxis(a, axis, 0)
    out = np.empty(a.shape, dtype=object)
    if len(a):
        out[0] = a[0]
        for i in range(1, len(a)):
            for j in np.ndindex(*a.shape[1:]):
                out[(i,) + j] = f(out[(i - 1,) + j], a[(i,) + j])
    return np.moveaxis(out, 0, axis)


def _where(c, x, y):
    g = np.frompyfunc(lambda c, x, y: ite(e_b(c), x, y), 3, 1)
    return g(c, x, y)


def concrete(a):
    """Object array with no symbols -> natural numeric dtype."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        try:
            return np.array(a.tolist())
        except (ValueError, TypeError):
            return a.view(np.ndarray)
    return plain(a)


# ------------------------------------------------------------ masks
def index_array(k):
    """Concretise an index array (object -> int or bool)."""
    if isinstance(k, SymIdx):
        return k.force()
    k = objarr(k)
    f = k.ravel()
    if f.size and kinds(k) <= _BOOLS:
        return np.array(plain(k).tolist(), dtype=bool).reshape(k.shape)
    if f.size and all(isb(v) for v in f):
        return np.array([builtins.bool(v) for v in f],
                        dtype=bool).reshape(k.shape)
    return np.array([operator.index(v) if not isinstance(v, float) else int(v)
                     for v in f], dtype=np.intp).reshape(k.shape)


def is_symmask(k):
    return isinstance(k, np.ndarray) and k.dtype == object and k.size and \
        SBool in kinds(k)


def settle(mask):
    """Replace mask elements that are decided on this path."""
    E = sym.ENGINE
    out = np.array(plain(mask), dtype=object)
    if E is None:
        return out
    for i in zip(*np.nonzero(symat(out))):
        v = out[i]
        if isinstance(v, SBool) and E is not None:
            t = E.bounds.truth(v)
            if t is None:
                t = E.known(v)
            if t is not None:
                v = t
        out[i] = v
    return out


class Lazy:
    """A selection a[mask] whose extent is symbolic: elementwise results keep
    the full extent; anything else forces a decision about the mask."""
    __array_priority__ = 2e6

    def __init__(self, mask, full):
        self.mask = mask          # plain object array
        self.full = full          # plain object array of the same shape

    @staticmethod
    def map(f, inputs):
        m = next(x for x in inputs if isinstance(x, Lazy))
        args = []
        for x in inputs:
            if isinstance(x, Lazy):
                if not same_mask(x.mask, m.mask):
                    return f(*[y.force() if isinstance(y, Lazy) else y
                               for y in inputs])
                args.append(x.full)
            elif isinstance(x, np.ndarray) and x.ndim or \
                    isinstance(x, (list, tuple)) or is_pandas(x):
                return f(*[y.force() if isinstance(y, Lazy) else y
                           for y in inputs])
            else:
                args.append(x)
        # outside of the selection the value is irrelevant: guard against
        # undefined operations by only computing where the mask can hold
        c = settle(m.mask)
        flat = []
        idx = list(np.ndindex(*c.shape))
        for i in idx:
            if c[i] is False:
                flat.append(0)
            else:
                vals = [a[i] if isinstance(a, np.ndarray) else a
                        for a in args]
                flat.append(f(*vals))
        out = np.empty(c.shape, dtype=object)
        for i, v in zip(idx, flat):
            out[i] = v
        return Lazy(m.mask, out)

    def force(self):
        idx = index_array(self.mask)
        return wrap(self.full[idx])

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return function(func, args, kwargs)

    def __array__(self, dtype=None):
        return np.asarray(self.force().view(np.ndarray), dtype=dtype)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(self.force(), k)

    def __getitem__(self, k):
        return self.force()[k]

    def copy(self):
        return Lazy(self.mask, self.full.copy())

    def astype(self, dt, *a, **k):
        return Lazy.map(lambda x: sym.convert(x, dt), (self,))


def _lazyop(name):
    uf = getattr(np, name)

    def f(self, o):
        return ufunc(uf, '__call__', self, o)

    def r(self, o):
        return ufunc(uf, '__call__', o, self)
    return f, r


for _n, _u in dict(add='add', sub='subtract', mul='multiply',
                   truediv='true_divide', pow='power', mod='remainder',
                   floordiv='floor_divide').items():
    _f, _r = _lazyop(_u)
    setattr(Lazy, '__%s__' % _n, _f)
    setattr(Lazy, '__r%s__' % _n, _r)
for _n, _u in dict(lt='less', le='less_equal', gt='greater',
                   ge='greater_equal', eq='equal', ne='not_equal').items():
    setattr(Lazy, '__%s__' % _n, _lazyop(_u)[0])
setattr(Lazy, '__neg__', lambda self: ufunc(np.negative, '__call__', self))
Lazy.__hash__ = object.__hash__
setattr(Lazy, '__array_priority__', 2e6)


def same_mask(a, b):
    return a is b or (a.shape == b.shape and
                      all(x is y or x == y and not isinstance(x, SBool)
                          for x, y in zip(a.ravel(), b.ravel())))


class SymIdx:
    """Result of nonzero/flatnonzero/where(cond) on a symbolic 1-d mask."""

    def __init__(self, mask):
        self.mask = mask

    def force(self):
        return np.nonzero(index_array(self.mask))[0]

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __array__(self, dtype=None):
        return np.asarray(self.force(), dtype=dtype)

    def __array_function__(self, func, types, args, kwargs):
        return function(func, [a.force() if isinstance(a, SymIdx) else a
                               for a in args], kwargs)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, *[wrap(a.force()) if isinstance(a, SymIdx)
                                   else a for a in inputs], **kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return getattr(wrap(self.force()), k)

    def __getitem__(self, k):
        return wrap(self.force())[k]

    def __add__(self, o):
        return wrap(self.force()) + o

    def __sub__(self, o):
        return wrap(self.force()) - o


# ------------------------------------------------------------ the array
class SA(np.ndarray):
    __array_priority__ = 1e5

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        return ufunc(uf, method, *inputs, **kw)

    def __array_function__(self, func, types, args, kwargs):
        return function(func, args, kwargs)

    def _key(self, k):
        """-> ('lazy', mask) or ('plain', key)"""
        if isinstance(k, SymIdx):
            if k.mask.shape == self.shape:
                return 'lazy', k.mask
            return 'plain', k.force()
        if isinstance(k, tuple) and len(k) == 1 and \
                isinstance(k[0], (SymIdx, np.ndarray)):
            return self._key(k[0])
        if is_pandas(k):
            k = np.asarray(k)
        if isinstance(k, Lazy):
            k = k.force()
        if is_symmask(k):
            m = settle(k.view(np.ndarray))
            if SBool not in kinds(m):
                return 'plain', m.astype(bool)
            if m.shape == self.shape:
                return 'lazy', m
            return 'plain', index_array(m)
        if isinstance(k, np.ndarray) and k.dtype == object:
            return 'plain', index_array(k)
        if isinstance(k, Sym):
            return 'plain', operator.index(k)
        if isinstance(k, SBool):
            return 'plain', builtins.bool(k)
        if isinstance(k, (list,)) and contains(k):
            return 'plain', index_array(k)
        if isinstance(k, tuple):
            return 'plain', tuple(self._key1(x) for x in k)
        if isinstance(k, slice):
            return 'plain', self._key1(k)
        return 'plain', plain(k)

    @staticmethod
    def _key1(x):
        if isinstance(x, slice):
            return slice(*[operator.index(v) if isinstance(v, Sym) else v
                           for v in (x.start, x.stop, x.step)])
        if isinstance(x, Sym):
            return operator.index(x)
        if isinstance(x, SymIdx):
            return x.force()
        if isinstance(x, np.ndarray) and x.dtype == object:
            return index_array(x)
        if is_pandas(x):
            return np.asarray(x)
        return plain(x)

    def __getitem__(self, k):
        kind, k2 = self._key(k)
        if kind == 'lazy':
            return Lazy(k2, objarr(self).copy())
        return wrap(self.view(np.ndarray)[k2])

    def __setitem__(self, k, v):
        kind, k2 = self._key(k)
        base = self.view(np.ndarray)
        if kind == 'lazy':
            if isinstance(v, Lazy) and same_mask(v.mask, k2):
                new = v.full
            elif isinstance(v, Lazy):
                base[index_array(k2)] = plain(v.force())
                return
            elif isinstance(v, np.ndarray) and v.ndim and v.size != 1:
                base[index_array(k2)] = plain(v)
                return
            else:
                new = objarr(v)
                if new.size == 1:
                    new = np.broadcast_to(new.reshape(()), base.shape)
            if base.dtype != object:
                if contains(new):
                    raise Unsupported('symbolic mask assignment to %s array'
                                      % base.dtype)
                at = index_array(k2)
                base[at] = np.broadcast_to(plain(new), base.shape)[at]
                return
            base[...] = _where(k2, new, base)
            return
        if isinstance(v, Lazy):
            v = v.force()
        if is_pandas(v):
            v = np.asarray(v)
        if base.dtype != object and contains(v):
            raise Unsupported('symbolic value stored in a %s array'
                              % base.dtype)
        if isinstance(v, (Sym, SBool)):
            t = np.empty((), dtype=object)
            t[()] = v
            base[k2] = t if not _single(base, k2) else v
            return
        if isinstance(v, (list, tuple)) and contains(v):
            v = objarr(v)
        base[k2] = plain(v)

    def __iter__(self):
        if self.ndim == 1:
            yield from self.view(np.ndarray)
            return
        for i in range(len(self)):
            yield self[i]

    # reductions / methods numpy implements in C or through _methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return function(np.sum, (self,), dict(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return function(np.mean, (self,), dict(axis=axis, keepdims=keepdims))

    def prod(self, axis=None, **k):
        return function(np.prod, (self,), dict(axis=axis))

    def std(self, axis=None, ddof=0, **k):
        return function(np.std, (self,), dict(axis=axis, ddof=ddof))

    def var(self, axis=None, ddof=0, **k):
        return function(np.var, (self,), dict(axis=axis, ddof=ddof))

    def any(self, axis=None, **k):
        return function(np.any, (self,), dict(axis=axis))

    def all(self, axis=None, **k):
        return function(np.all, (self,), dict(axis=axis))

    def max(self, axis=None, **k):
        return function(np.max, (self,), dict(axis=axis))

    def min(self, axis=None, **k):
        return function(np.min, (self,), dict(axis=axis))

    def cumsum(self, axis=None, **k):
        return function(np.cumsum, (self,), dict(axis=axis))

    def clip(self, *a, **k):
        return function(np.clip, (self,) + a, k)

    def round(self, decimals=0, **k):
        return function(np.round, (self, decimals), {})

    def dot(self, o, **k):
        return dot(self, o)

    def argmax(self, axis=None, **k):
        return function(np.argmax, (self,), dict(axis=axis))

    def argmin(self, axis=None, **k):
        return function(np.argmin, (self,), dict(axis=axis))

    def nonzero(self):
        return function(np.nonzero, (self,), {})

    def astype(self, dt, *a, copy=True, **k):
        dt = fixdtype(dt)
        if self.dtype == object:
            kd = np.dtype(dt).kind
            if contains(self):
                if kd == 'O':
                    return wrap(self.view(np.ndarray).copy())
                g = np.frompyfunc(lambda x: sym.convert(x, dt), 1, 1)
                return wrap(g(self.view(np.ndarray)))
            if kd == 'f':          # stay writable by symbols
                return wrap(self.view(np.ndarray).copy())
        elif np.dtype(dt).kind == 'f':
            return wrap(self.view(np.ndarray).astype(float).astype(object))
        return wrap(self.view(np.ndarray).astype(dt, *a, **k))

    def copy(self, order='C'):
        return wrap(self.view(np.ndarray).copy())

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def __contains__(self, v):
        return builtins.bool(function(np.any, (self == v,), {}))

    def __bool__(self):
        if self.size == 1:
            return builtins.bool(self.ravel().view(np.ndarray)[0])
        return builtins.bool(self.view(np.ndarray))

    def __float__(self):
        return float(self.ravel().view(np.ndarray)[0])

    def __int__(self):
        return int(self.ravel().view(np.ndarray)[0])

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        if contains(self):
            raise Unsupported('pickling symbolic data')
        return self.view(np.ndarray).__reduce__()


def _single(base, k):
    try:
        r = base[k]
    except Exception:
        return False
    return not isinstance(r, np.ndarray)


def fixdtype(dt):
    if dt is None:
        return None
    if isinstance(dt, type) and issubclass(dt, builtins.int) and \
            dt.__name__ == 'int':
        return builtins.int
    if isinstance(dt, type) and issubclass(dt, builtins.float) and \
            dt.__name__ == 'float':
        return builtins.float
    return dt


def dot(a, b, *k, **kw):
    a, b = objarr(a), objarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return wrap(_pyf['multiply'](a, b))
    if b.ndim == 1:
        out = np.empty(a.shape[:-1], dtype=object)
        for i in np.ndindex(*a.shape[:-1]):
            out[i] = ssum([x * y for x, y in zip(a[i], b)])
        return out[()] if a.ndim == 1 else wrap(out)
    bt = np.moveaxis(b, -2, -1)
    out = np.empty(a.shape[:-1] + bt.shape[:-1], dtype=object)
    for i in np.ndindex(*a.shape[:-1]):
        for j in np.ndindex(*bt.shape[:-1]):
            out[i + j] = ssum([x * y for x, y in zip(a[i], bt[j])])
    return wrap(out)


# ------------------------------------------------------------ functions
F = {}


def impl(*fs):
    def d(f):
        for x in fs:
            F[x] = f
        return f
    return d


def function(func, args, kwargs):
    kwargs = {k: v for k, v in kwargs.items() if v is not np._NoValue}
    f = F.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if not contains(args) and not contains(list(kwargs.values())):
        a2 = [concrete(x) if isinstance(x, np.ndarray) else deep_plain(x)
              for x in args]
        k2 = {k: deep_plain(v) for k, v in kwargs.items()}
        return wrap(func(*a2, **k2))
    # generic: numpy's own implementation on plain object arrays
    args = [deep_plain(x) if not isinstance(x, (Sym, SBool)) else objarr(x)
            for x in args]
    kwargs = {k: deep_plain(v) for k, v in kwargs.items()}
    if func.__name__ not in STRUCTURAL:
        raise Unsupported('numpy function ' + func.__name__)
    impl_ = getattr(func, '_implementation', None)
    return wrap(impl_(*args, **kwargs) if impl_ else func(*args, **kwargs))


STRUCTURAL = {
    'repeat', 'roll', 'reshape', 'ravel', 'append', 'insert', 'delete',
    'column_stack', 'row_stack', 'hstack', 'vstack', 'dstack', 'stack',
    'concatenate', 'tile', 'transpose', 'swapaxes', 'moveaxis', 'squeeze',
    'expand_dims', 'flip', 'fliplr', 'flipud', 'split', 'array_split',
    'hsplit', 'vsplit', 'take', 'atleast_1d', 'atleast_2d', 'atleast_3d',
    'broadcast_to', 'broadcast_arrays', 'shape', 'ndim', 'size', 'copy',
    'resize', 'pad', 'block', 'rot90', 'diagonal', 'diag', 'meshgrid',
    'rollaxis', 'ndenumerate', 'take_along_axis', 'put', 'copyto', 'trim_zeros',
    'result_type', 'can_cast', 'may_share_memory', 'shares_memory', 'diff',
    'apply_along_axis', 'array_repr', 'array_str', 'array2string', 'ix_',
    'iscomplexobj', 'isrealobj', 'real', 'compress', 'choose', 'put_along_axis',
    'sliding_window_view',
}


def _ax(x, axis, f, keep=False):
    if isinstance(x, Lazy):
        x = x.force()
    return reduce_axis(f, objarr(x), axis, keep)


def _sumf(xs):
    xs = [sym.lift(x) if isinstance(x, SBool) else x for x in xs]
    if any(isinstance(x, Sym) for x in xs):
        return ssum(xs)
    return np.sum(np.array(xs)) if xs else 0.0


def _reduction(f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        if not contains(a):
            a = concrete(objarr(a))
        return _ax(a, axis, f, keepdims)
    return g


F[np.sum] = _reduction(_sumf)


def _meanf(xs):
    return _sumf(xs) / len(xs) if len(xs) else float('nan')


def _notnan(f):
    return lambda xs: f([x for x in xs if not is_nan(x)])


def _varf(xs, ddof=0):
    m = _meanf(xs)
    return _sumf([(x - m) * (x - m) for x in xs]) / (len(xs) - ddof)


F[np.mean] = _reduction(_meanf)
F[np.average] = lambda a, axis=None, weights=None, **k: (
    F[np.mean](a, axis) if weights is None else
    e_div(_sumf([x * y for x, y in zip(objarr(a).ravel(),
                                       objarr(weights).ravel())]),
          _sumf(list(objarr(weights).ravel()))))
F[np.nansum] = _reduction(_notnan(_sumf))
F[np.nanmean] = _reduction(_notnan(_meanf))
F[np.prod] = _reduction(_prod)
F[np.max] = F[np.amax] = _reduction(lambda xs: _redmax(xs))
F[np.min] = F[np.amin] = _reduction(lambda xs: _redmin(xs))
F[np.nanmax] = _reduction(_notnan(_redmax))
F[np.nanmin] = _reduction(_notnan(_redmin))
F[np.ptp] = _reduction(lambda xs: _redmax(xs) - _redmin(xs))


@impl(np.var)
def _var(a, axis=None, ddof=0, **k):
    return _ax(a, axis, lambda xs: _varf(xs, ddof))


@impl(np.std)
def _std(a, axis=None, ddof=0, **k):
    return _ax(a, axis, lambda xs: sym.fn('sqrt', _varf(xs, ddof)))


@impl(np.any)
def _any(a, axis=None, out=None, keepdims=False, **k):
    return _ax(a, axis, lambda xs: bor(*[e_b(x) for x in xs]), keepdims)


@impl(np.all)
def _all(a, axis=None, out=None, keepdims=False, **k):
    return _ax(a, axis, lambda xs: band(*[e_b(x) for x in xs]), keepdims)


def quantile(xs, q):
    xs = list(_sort(objarr(list(xs))).view(np.ndarray))
    p = q * (len(xs) - 1)
    i = int(math.floor(p))
    if i + 1 >= len(xs):
        return xs[i]
    return xs[i] + (p - i) * (xs[i + 1] - xs[i])


@impl(np.median)
def _median(a, axis=None, **k):
    if not contains(a):
        return np.median(concrete(objarr(a)), axis)
    return _ax(a, axis, lambda xs: quantile(xs, 0.5))


@impl(np.nanmedian)
def _nanmedian(a, axis=None, **k):
    return _ax(a, axis, _notnan(lambda xs: quantile(xs, 0.5)))


@impl(np.percentile)
def _percentile(a, q, axis=None, **k):
    if not contains(a):
        return np.percentile(concrete(objarr(a)), q, axis, **k)
    if k or np.ndim(q):
        raise Unsupported('percentile')
    return _ax(a, axis, lambda xs: quantile(xs, q / 100))


@impl(np.quantile)
def _quantile(a, q, axis=None, **k):
    if not contains(a):
        return np.quantile(concrete(objarr(a)), q, axis, **k)
    if k or np.ndim(q):
        raise Unsupported('quantile')
    return _ax(a, axis, lambda xs: quantile(xs, q))


@impl(np.outer)
def _outer(a, b, out=None):
    a, b = objarr(a).ravel(), objarr(b).ravel()
    return ufunc(np.multiply, '__call__', wrap(a[:, None]), wrap(b[None, :]))


@impl(np.kron)
def _kron(a, b):
    a, b = objarr(a), objarr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('kron')
    return _outer(a, b).reshape(-1)


@impl(np.gradient)
def _gradient(f, *h, **k):
    if not contains(f):
        return np.gradient(concrete(objarr(f)), *h, **k)
    f = objarr(f)
    if f.ndim != 1 or k or len(h) > 1 or (h and np.ndim(h[0])) or len(f) < 2:
        raise Unsupported('gradient')
    d = h[0] if h else 1.0
    out = np.empty(len(f), dtype=object)
    for i in range(len(f)):
        a, b = max(i - 1, 0), min(i + 1, len(f) - 1)
        out[i] = (f[b] - f[a]) / (d * (b - a))
    return wrap(out)


@impl(np.cumprod)
def _cumprod(a, axis=None, **k):
    a = objarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return wrap(_accumulate(lambda x, y: x * y, a, axis))


@impl(np.cumsum)
def _cumsum(a, axis=None, **k):
    a = objarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return wrap(_accumulate(lambda x, y: x + y, a, axis))


@impl(np.where)
def _npwhere(c, *xy):
    if isinstance(c, Lazy):
        c = c.force()
    if xy:
        if any(isinstance(v, Lazy) for v in xy):
            xy = tuple(v.force() if isinstance(v, Lazy) else v for v in xy)
        c = np.asarray(c) if is_pandas(c) else c
        if not contains(c):
            c2 = plain(c) if isinstance(c, np.ndarray) else c
            if not contains(xy):
                return wrap(np.where(concrete(objarr(c2)).astype(bool),
                                     *[concrete(objarr(v)) for v in xy])
                            .astype(object))
        r = _where(objarr(c), objarr(xy[0]), objarr(xy[1]))
        return wrap(r) if isinstance(r, np.ndarray) else r
    return _nonzero(c)


@impl(np.nonzero)
def _nonzero(c):
    if isinstance(c, Lazy):
        c = c.force()
    if not contains(c):
        return wrap(np.nonzero(concrete(objarr(c))))
    c = objarr(c)
    m = np.array(plain(c), dtype=object)
    w = symat(m)
    try:
        m[~w] = m[~w].astype(bool)
    except (TypeError, ValueError):
        pass
    for i in zip(*np.nonzero(w)):
        m[i] = e_b(m[i])
    m = settle(m)
    if not contains(m):
        return wrap(np.nonzero(m.astype(bool)))
    if m.ndim == 1:
        return (SymIdx(m),)
    return wrap(np.nonzero(index_array(m)))


@impl(np.argwhere)
def _argwhere(c):
    return wrap(np.argwhere(index_array(np.frompyfunc(e_b, 1, 1)(objarr(c)))))


@impl(np.flatnonzero)
def _flatnonzero(c):
    return _nonzero(objarr(c).ravel())[0]


@impl(np.count_nonzero)
def _count(c, axis=None, **k):
    return _ax(c, axis, lambda xs: ssum([ite(e_b(x), 1, 0) for x in xs]))


@impl(np.clip)
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    a_min = a_min if min is None else min
    a_max = a_max if max is None else max
    r = a
    if a_min is not None:
        r = ufunc(np.maximum, '__call__', r, a_min)
    if a_max is not None:
        r = ufunc(np.minimum, '__call__', r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@impl(np.round, np.around)
def _round(a, decimals=0, **k):
    g = np.frompyfunc(lambda x: sym.round_half_even(x * 10 ** decimals)
                      / 10 ** decimals if isinstance(x, Sym)
                      else np.round(x, decimals), 1, 1)
    r = g(objarr(a))
    return wrap(r) if isinstance(r, np.ndarray) else r


@impl(np.fix)
def _fix(a, **k):
    return ufunc(np.trunc, '__call__', a)


@impl(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, **k):
    g = np.frompyfunc(lambda v: nan if is_nan(v) else v, 1, 1)
    r = g(objarr(x))
    return wrap(r) if isinstance(r, np.ndarray) else r


@impl(np.bincount)
def _bincount(x, weights=None, minlength=0):
    x = index_array(x) if not isinstance(x, np.ndarray) or \
        x.dtype == object else plain(x)
    if weights is None or not contains(weights):
        w = None if weights is None else concrete(objarr(weights))
        return wrap(np.bincount(x, w, minlength).astype(object))
    w = objarr(weights)
    if len(w) != len(x):
        raise ValueError('The weights and list don\'t have the same length.')
    n = builtins.max(int(x.max()) + 1 if len(x) else 0, minlength)
    accs = [[] for _ in range(n)]
    for i, v in zip(x, w):
        accs[i].append(v)
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = _sumf(accs[i]) if accs[i] else 0.0
    return wrap(out)


@impl(np.add.reduceat)
def _never(*a, **k):
    raise Unsupported('reduceat')


@impl(np.linspace)
def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
              axis=0):
    num = operator.index(num)
    if not contains((start, stop)):
        if dtype is not None and np.dtype(dtype) == np.longdouble:
            return np.linspace(plain(start), plain(stop), num, endpoint,
                               retstep, dtype, axis)
        return wrap(np.linspace(plain(start), plain(stop), num, endpoint,
                                retstep, dtype, axis).astype(object)
                    if not retstep else np.linspace(start, stop, num,
                                                    endpoint, retstep))
    d = num - 1 if endpoint else num
    step = (stop - start) / d if d else float('nan')
    out = np.empty(num, dtype=object)
    for i in range(num):
        out[i] = start + step * i if d else start
    return (wrap(out), step) if retstep else wrap(out)


@impl(np.arange)
def _arange(*args, dtype=None, **k):
    if not contains(args):
        return wrap(np.arange(*args, dtype=fixdtype(dtype)))
    start, stop, step = (0, args[0], 1) if len(args) == 1 else \
        (args[0], args[1], 1) if len(args) == 2 else args
    n = -sym.floor(-((sym.lift(stop) - start) / step))
    n = operator.index(n) if isinstance(n, Sym) else int(n)
    out = np.empty(builtins.max(n, 0), dtype=object)
    for i in range(len(out)):
        out[i] = start + step * i
    return wrap(out)


def _creation(name):
    f = getattr(np, name)

    def g(shape, dtype=None, *a, **k):
        dtype = fixdtype(dtype)
        shape = deep_plain(shape)
        if isinstance(shape, Sym):
            shape = operator.index(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(operator.index(s) for s in shape)
        if dtype is not None and np.dtype(dtype).kind not in 'fiuO':
            return wrap(f(shape, dtype))
        kind = 'f' if dtype is None else np.dtype(dtype).kind
        if kind in 'iu':
            return wrap(f(shape, dtype).astype(object))
        r = f(shape) if name != 'empty' else np.full(shape, np.nan)
        return wrap(r.astype(object))
    return g


zeros, ones, empty = map(_creation, ('zeros', 'ones', 'empty'))


def full(shape, fill_value, dtype=None, *a, **k):
    r = zeros(shape)
    r[...] = fill_value
    return r


def _like(f):
    def g(a, *args, **k):
        k = {x: y for x, y in k.items() if x == 'dtype' and y is not None}
        shape = np.shape(plain(a)) if not is_pandas(a) else a.shape
        return f(shape, *args, **k)
    return g


F[np.zeros_like] = _like(zeros)
F[np.ones_like] = _like(ones)
F[np.empty_like] = _like(empty)
F[np.full_like] = lambda a, v, **k: full(np.shape(plain(a)), v)


@impl(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    from .stubs import linear
    xp, fp = list(objarr(xp)), list(objarr(fp))
    left = fp[0] if left is None else left
    right = fp[-1] if right is None else right
    xs = objarr(x)
    g = np.frompyfunc(lambda v: linear(v, xp, fp, left, right), 1, 1)
    r = g(xs)
    return wrap(r) if isinstance(r, np.ndarray) else r


@impl(np.searchsorted)
def _searchsorted(a, v, side='left', sorter=None):
    a = list(objarr(a))

    def one(x):
        n = 0
        for y in a:
            c = y < x if side == 'left' else y <= x
            if builtins.bool(c):
                n += 1
            else:
                break
        return n
    if isinstance(v, (Sym, int, float)):
        return one(v)
    return wrap(np.array([one(x) for x in objarr(v).ravel()]))


@impl(np.argmax)
def _argmax(a, axis=None, **k):
    def f(xs):
        b = 0
        for i in range(1, len(xs)):
            if builtins.bool(xs[i] > xs[b]):
                b = i
        return b
    return _ax(a, axis, f)


@impl(np.argmin)
def _argmin(a, axis=None, **k):
    return _argmax(-objarr(a), axis)


@impl(np.sort)
def _sort(a, axis=-1, **k):
    a = objarr(a)
    if a.ndim != 1:
        raise Unsupported('sort n-d')
    import functools
    r = np.empty(len(a), dtype=object)
    for i, v in enumerate(sorted(a, key=functools.cmp_to_key(
            lambda p, q: -1 if builtins.bool(p < q) else 1))):
        r[i] = v
    return wrap(r)


@impl(np.dot, np.inner, np.vdot)
def _dot(a, b, **k):
    if isinstance(a, Lazy) or isinstance(b, Lazy):
        a, b = plain(a), plain(b)
    return dot(a, b)


@impl(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = ufunc(np.absolute, '__call__', ufunc(np.subtract, '__call__', a, b))
    return _all(d <= atol + rtol * ufunc(np.absolute, '__call__', b))


@impl(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = ufunc(np.absolute, '__call__', ufunc(np.subtract, '__call__', a, b))
    return d <= atol + rtol * ufunc(np.absolute, '__call__', b)


@impl(np.array_equal)
def _array_equal(a, b, **k):
    a, b = objarr(a), objarr(b)
    return a.shape == b.shape and builtins.bool(_all(wrap(a) == wrap(b)))


@impl(np.select)
def _select(conds, choices, default=0):
    r = objarr(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = _where(objarr(c), objarr(v), r)
    return wrap(r)


@impl(np.piecewise)
def _piecewise(x, condlist, funclist, *a, **k):
    x = objarr(x)
    fl = list(funclist)
    conds = [objarr(c) for c in condlist]
    r = np.zeros(x.shape, dtype=object)
    if len(fl) == len(conds) + 1:
        d = fl.pop()
        r = objarr(d(wrap(x)) if callable(d) else np.full(x.shape, d))
    for c, f in zip(conds, fl):
        v = f(wrap(x)) if callable(f) else f
        r = _where(c, objarr(v), r)
    return wrap(r)


@impl(np.histogram)
def _hist(*a, **k):
    raise Unsupported('histogram')


@impl(np.convolve)
def _convolve(a, v, mode='full'):
    a, v = list(objarr(a)), list(objarr(v))
    n = len(a) + len(v) - 1
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = ssum([a[j] * v[i - j] for j in range(len(a))
                       if 0 <= i - j < len(v)])
    if mode == 'full':
        return wrap(out)
    m, s = builtins.max(len(a), len(v)), builtins.min(len(a), len(v))
    if mode == 'same':
        lo = (n - m) // 2
        return wrap(out[lo:lo + m])
    return wrap(out[s - 1:m])


@impl(np.trapz)
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = list(objarr(y))
    xs = list(objarr(x)) if x is not None else [dx * i for i in range(len(y))]
    return ssum([(xs[i + 1] - xs[i]) * (y[i] + y[i + 1]) / 2
                 for i in range(len(y) - 1)])


def array(x, dtype=None, copy=True, *a, **k):
    dtype = fixdtype(dtype)
    if isinstance(x, (Lazy, SymIdx)):
        x = x.force()
    if contains(x):
        r = wrap(objarr(x).copy())
        if dtype is not None and np.dtype(dtype).kind in 'iub':
            r = r.astype(dtype)
        return r
    if isinstance(x, np.ndarray) and x.dtype == object:
        x = x.view(np.ndarray)
        if x.size and all(isinstance(v, (float, int, np.number))
                          for v in x.ravel()):
            if dtype is not None and np.dtype(dtype).kind in 'iub':
                return wrap(x.astype(dtype))
            return wrap(x.copy())
    r = np.array(deep_plain(x), dtype=dtype)
    if r.dtype.kind == 'f':
        r = r.astype(object)
    return wrap(r)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, SA) and dtype is None:
        return x
    return array(x, dtype)


def fromiter(it, dtype=None, count=-1):
    return array(list(it), dtype)


def vectorize(f=None, otypes=None, **k):
    if f is None:
        return lambda g: vectorize(g, otypes)

    def g(*args):
        n = len(args)
        h = np.frompyfunc(lambda *xs: f(*xs), n, 1)
        r = h(*[objarr(a) for a in args])
        return wrap(r) if isinstance(r, np.ndarray) else r
    return g


class _NPProxy:
    """What metsim's `np` is bound to during a symbolic run."""
    _over = dict(zeros=zeros, ones=ones, empty=empty, full=full, array=array,
                 asarray=asarray, asanyarray=asarray, fromiter=fromiter,
                 vectorize=vectorize, ascontiguousarray=asarray)

    def __init__(self):
        self._cache = {}

    def __getattr__(self, k):
        c = self._cache.get(k)
        if c is not None:
            return c
        o = self._over.get(k)
        if o is None:
            v = getattr(np, k)
            if isinstance(v, np.ufunc):
                o = _UF(v)
            elif v in F if _hashable(v) else False:
                o = _fwrap(v)
            elif callable(v) and not isinstance(v, type) and \
                    hasattr(v, '_implementation'):
                o = _fwrap(v)
            else:
                return v
        self._cache[k] = o
        return o


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def _fwrap(v):
    def f(*args, **kwargs):
        return function(v, args, kwargs)
    f.__name__ = v.__name__
    return f


class _UF:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kw):
        return ufunc(self.uf, '__call__', *args, **kw)

    def __getattr__(self, k):
        if k in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
            return lambda *a, **kw: ufunc(self.uf, k, *a, **kw)
        return getattr(self.uf, k)


NP = _NPProxy()


# ------------------------------------------------------------ math / builtins
class _MathProxy:
    _u = {'exp': 'exp', 'log': 'log', 'sqrt': 'sqrt', 'sin': 'sin',
          'cos': 'cos', 'tan': 'tan', 'acos': 'arccos', 'asin': 'arcsin',
          'atan': 'arctan', 'tanh': 'tanh'}

    def __getattr__(self, k):
        v = getattr(math, k)
        if not callable(v):
            return v

        def f(*args, **kw):
            args = [a.reshape(-1)[0] if isinstance(a, np.ndarray) and
                    a.size == 1 else a for a in args]
            if not any(has_sym(a) for a in args):
                if args and isinstance(args[0], (list, np.ndarray)) and \
                        contains(args[0]) and k in ('fsum', 'prod'):
                    return _sumf(list(args[0])) if k == 'fsum' else \
                        _prod(list(args[0]))
                return v(*args, **kw)
            if k in self._u:
                return sym.fn(self._u[k], args[0])
            if k == 'remainder':
                x, y = sym.lift(args[0]), args[1]
                return x - y * sym.round_half_even(x / y)
            if k == 'fmod':
                x, y = sym.lift(args[0]), args[1]
                return x - y * sym.trunc(x / y)
            if k == 'floor':
                return sym.floor(args[0])
            if k == 'ceil':
                return -sym.floor(-args[0])
            if k == 'trunc':
                return sym.trunc(args[0])
            if k == 'fabs':
                return abs(args[0])
            if k == 'pow':
                return sym.power(*args)
            if k == 'radians':
                return args[0] * (math.pi / 180)
            if k == 'degrees':
                return args[0] * (180 / math.pi)
            if k in ('isnan', 'isinf'):
                return False
            if k == 'isfinite':
                return True
            if k == 'copysign':
                return ite(sym.lift(args[1]) >= 0, abs(args[0]),
                           -abs(args[0]))
            if k == 'isclose':
                return _isclose(args[0], args[1], kw.get('rel_tol', 1e-9),
                                kw.get('abs_tol', 0.0))
            if k == 'modf':
                t = sym.trunc(args[0])
                return args[0] - t, t
            raise Unsupported('math.' + k)
        return f


MATH = _MathProxy()


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)


def _one(x):
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        return x.reshape(-1)[0]
    return x


class sint(builtins.int, metaclass=_Meta):
    _base = builtins.int

    def __new__(cls, x=0, *a):
        x = _one(x)
        if isinstance(x, Sym):
            return sym.trunc(x)
        if isinstance(x, SBool):
            return ite(x, 1, 0)
        if hasattr(x, 'symx_scripted'):
            return sym.trunc(x.symx_scripted)
        return builtins.int(x, *a)


class sfloat(builtins.float, metaclass=_Meta):
    _base = builtins.float

    def __new__(cls, x=0.0):
        x = _one(x)
        if isinstance(x, Sym):
            return x
        if isinstance(x, SBool):
            return ite(x, 1, 0)
        if hasattr(x, 'values') and contains(np.asarray(x)):
            return _one(np.asarray(x))
        if hasattr(x, 'symx_scripted'):
            return x.symx_scripted
        return builtins.float(x)


sint.__name__, sfloat.__name__ = 'int', 'float'


def smin(*args, **kw):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(has_sym(x) for x in xs):
        return builtins.min(xs, **kw)
    return _redmin(xs)


def smax(*args, **kw):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if kw or not any(has_sym(x) for x in xs):
        return builtins.max(xs, **kw)
    return _redmax(xs)


def sround(x, n=None):
    x = _one(x)
    if isinstance(x, Sym):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


def ssumb(it, start=0):
    xs = list(it)
    if any(has_sym(x) for x in xs):
        return ssum(xs) + start
    return builtins.sum(xs, start)


BUILTINS = dict(int=sint, float=sfloat, min=smin, max=smax, round=sround,
                sum=ssumb)
