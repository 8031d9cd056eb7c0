"""Models of the third-party code that metsim calls with symbolic data."""
import builtins
import os
import struct as _struct
import types

import numpy as np

from . import nparr, sym
from .nparr import SA, contains, objarr, wrap
from .sym import SBool, Sym, Unsupported, ite


def E():
    return sym.ENGINE


# ---------------------------------------------------------------- linear
def linear(v, xp, fp, left, right, clampless=False):
    """Piecewise linear interpolation of one point (xp increasing)."""
    if builtins.bool(v < xp[0]):
        if not clampless:
            return left
        i = 0
    elif builtins.bool(v > xp[-1]):
        if not clampless:
            return right
        i = len(xp) - 2
    else:
        lo, hi = 0, len(xp) - 1
        while hi - lo > 1:
            m = (lo + hi) // 2
            if builtins.bool(v < xp[m]):
                hi = m
            else:
                lo = m
        i = lo
    if len(xp) == 1:
        return fp[0]
    return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))


def numeric(xs):
    """Concrete floats of a list (None if symbolic)."""
    out = []
    for v in xs:
        if isinstance(v, Sym):
            if v.const is None:
                return None
            v = float(v.const)
        out.append(float(v))
    return out


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=np.nan, assume_sorted=False):
        import scipy.interpolate as si
        self.real = None
        if not contains(x) and not contains(y):
            self.real = si.interp1d(
                np.array(objarr(x), float), np.array(objarr(y), float), kind,
                axis, copy, bounds_error, fill_value, assume_sorted)
            return
        self.x, self.y = list(objarr(x)), list(objarr(y))
        if len(self.x) != len(self.y):
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        if not assume_sorted:
            nx = numeric(self.x)
            if nx is not None:
                o = np.argsort(nx, kind='mergesort')
                self.x = [self.x[i] for i in o]
                self.y = [self.y[i] for i in o]
            else:
                for i in range(len(self.x) - 1):
                    if not builtins.bool(self.x[i] <= self.x[i + 1]):
                        raise Unsupported('interp1d with unsorted symbols')
        self.kind, self.fill, self.be = kind, fill_value, bounds_error
        if self.be is None:
            self.be = not (isinstance(fill_value, (str, tuple)) or
                           fill_value == fill_value)

    def __call__(self, q):
        if self.real is not None and not contains(q):
            return wrap(np.asarray(self.real(np.array(objarr(q), float)))
                        .astype(object))
        if self.kind == 'linear' or self.kind == 1:
            f = self._linear
        elif self.kind in ('nearest', 'previous', 'next', 'zero'):
            f = self._step
        else:
            f = None
        q2 = objarr(q)
        if f is None:
            import scipy.interpolate as si
            return LinearMap(lambda x, y: si.interp1d(
                x, y, self.kind, bounds_error=self.be,
                fill_value=self.fill), self.x, self.y)(q)
        r = np.frompyfunc(f, 1, 1)(q2)
        return wrap(r) if isinstance(r, np.ndarray) else r

    def _oob(self, v):
        if builtins.bool(v < self.x[0]):
            if self.be:
                raise ValueError('below the interpolation range')
            return 0
        if builtins.bool(v > self.x[-1]):
            if self.be:
                raise ValueError('above the interpolation range')
            return 1
        return None

    def _linear(self, v):
        if self.fill is not None and isinstance(self.fill, str):
            return linear(v, self.x, self.y, None, None, clampless=True)
        s = self._oob(v)
        if s is not None:
            return self.fill[s] if isinstance(self.fill, tuple) else self.fill
        return linear(v, self.x, self.y, None, None)

    def _step(self, v):
        s = self._oob(v)
        if s is not None:
            return self.fill[s] if isinstance(self.fill, tuple) else self.fill
        i = 0
        while i + 1 < len(self.x) and builtins.bool(self.x[i + 1] <= v):
            i += 1
        if self.kind in ('previous', 'zero') or i + 1 == len(self.x):
            return self.y[i]
        if self.kind == 'next':
            return self.y[i] if builtins.bool(v == self.x[i]) else \
                self.y[i + 1]
        mid = (self.x[i] + self.x[i + 1]) / 2
        return self.y[i] if builtins.bool(v <= mid) else self.y[i + 1]


class LinearMap:
    """Any interpolator that is linear in the ordinates, evaluated exactly on
    the basis vectors by scipy itself (abscissae must be concrete)."""

    def __init__(self, make, x, y):
        self.make, self.x, self.y = make, x, list(y)
        self.nx = numeric(x)
        if self.nx is None:
            raise Unsupported('interpolator with symbolic abscissae')

    def __call__(self, q, *a, **k):
        nq = numeric(objarr(q).ravel())
        if nq is None:
            raise Unsupported('interpolator at a symbolic point')
        cols = []
        for i in range(len(self.y)):
            e = np.zeros(len(self.y))
            e[i] = 1.0
            cols.append(np.asarray(self.make(np.array(self.nx), e)(
                np.array(nq), *a, **k)))
        z = np.asarray(self.make(np.array(self.nx), np.zeros(len(self.y)))(
            np.array(nq), *a, **k))
        out = np.empty(len(nq), dtype=object)
        for j in range(len(nq)):
            if any(np.isnan(c[j]) for c in cols):
                out[j] = float('nan')
            else:
                out[j] = sym.ssum([self.y[i] * float(cols[i][j] - z[j])
                                   for i in range(len(self.y))]) + float(z[j])
        return wrap(out.reshape(np.shape(objarr(q))))


class Pchip:
    """Contract: interpolates the knots; between two knots the value is
    y0 + s*(y1 - y0) with 0 <= s <= 1, s non-decreasing in time; s depends only
    on the neighbouring knots relative to the query (translation invariant)."""
    kind = 'pchip'

    def __init__(self, x, y, axis=0, extrapolate=None):
        import scipy.interpolate as si
        self.real = None
        nx, ny = numeric(objarr(x)), None
        if nx is not None:
            ny = numeric(objarr(y))
        if ny is not None:
            self.real = self.scipy_class(si)(np.array(nx), np.array(ny))
            self.extra = extrapolate is not False
            return
        self.x, self.y = list(objarr(x)), list(objarr(y))
        self.extra = True if extrapolate is None else extrapolate
        if len(self.x) != len(self.y):
            raise ValueError('x and y must have the same length')
        for i in range(len(self.x) - 1):
            if builtins.bool(self.x[i + 1] - self.x[i] <= 0):
                raise ValueError('`x` must be strictly increasing sequence.')
        self.prev = {}

    def __call__(self, q, nu=0, extrapolate=None):
        if extrapolate is not None:
            self.extra = extrapolate
        if self.real is not None:
            nq = numeric(objarr(q).ravel())
            if nq is None:
                raise Unsupported('pchip at a symbolic point')
            r = self.real(np.array(nq), nu, extrapolate=bool(self.extra))
            return wrap(np.asarray(r).astype(object)
                        .reshape(np.shape(objarr(q))))
        if nu:
            raise Unsupported('pchip derivative')
        r = np.frompyfunc(self.one, 1, 1)(objarr(q))
        return wrap(r) if isinstance(r, np.ndarray) else r

    def one(self, v):
        x, y = self.x, self.y
        n = len(x)
        below = builtins.bool(v < x[0])
        above = not below and builtins.bool(v > x[-1])
        if (below or above) and not self.extra:
            return float('nan')
        if below or above:
            return self.free(v, 'extra')
        lo, hi = 0, n - 1
        while hi - lo > 1:
            m = (lo + hi) // 2
            if builtins.bool(v < x[m]):
                hi = m
            else:
                lo = m
        i = lo
        if builtins.bool(v == x[i]):
            return y[i]
        if builtins.bool(v == x[i + 1]):
            return y[i + 1]
        dy = y[i + 1] - y[i]
        if not isinstance(dy, Sym) and dy == 0 or \
                isinstance(dy, Sym) and dy.const == 0:
            return y[i]
        a, b = max(0, i - 1), min(n - 1, i + 2)
        if a == 0:
            b = min(n - 1, max(b, 2))
        if b == n - 1:
            a = max(0, min(a, n - 3))
        key = [self.kind, i - a, b - i, a == 0, b == n - 1,
               k(v - x[i])]
        for j in range(a, b + 1):
            key.append(k(x[j] - x[i]))
            key.append(k(y[j] - y[i]))
        key = tuple(key)
        e = E()
        tab = e.__dict__.setdefault('pchip', {})
        name = tab.get(key)
        if name is None:
            name = '~s%d' % len(tab)
            tab[key] = name
            xs, ys, vv = list(x), list(y), v
            e.__dict__.setdefault('resolvers', {})[name] = \
                (self.resolver(xs, ys, vv, i))
        s = e.fresh(name, 0, 1)
        # monotone in time
        p = self.prev.get(i)
        if p is not None:
            if builtins.bool(p[0] <= v):
                e.add_pc(p[1] <= s)
            else:
                e.add_pc(s <= p[1])
        self.prev[i] = (v, s)
        r = y[i] + dy * s
        ends = sym.lift(y[i]), sym.lift(y[i + 1])
        if isinstance(r, Sym) and all(isinstance(t, Sym) for t in ends):
            r.src = ('hull',) + ends
        return r

    def resolver(self, xs, ys, v, i):
        def f(env):
            import scipy.interpolate as si
            cls = self.scipy_class(si)
            nx = [float(sym.evaluate(t, env)) for t in xs]
            ny = [float(sym.evaluate(t, env)) for t in ys]
            q = float(sym.evaluate(v, env))
            r = float(cls(nx, ny)(q))
            if ny[i + 1] == ny[i]:
                return 0.5
            return (r - ny[i]) / (ny[i + 1] - ny[i])
        return f

    @staticmethod
    def scipy_class(si):
        return si.PchipInterpolator

    def free(self, v, tag):
        e = E()
        tab = e.__dict__.setdefault('pchipfree', {})
        key = (self.kind, tag, k(v)) + tuple(k(t) for t in self.x) + \
            tuple(k(t) for t in self.y)
        name = tab.get(key)
        if name is None:
            name = '~f%d' % len(tab)
            tab[key] = name
            xs, ys = list(self.x), list(self.y)

            def f(env):
                import scipy.interpolate as si
                nx = [float(sym.evaluate(t, env)) for t in xs]
                ny = [float(sym.evaluate(t, env)) for t in ys]
                q = float(sym.evaluate(v, env))
                return float(self.scipy_class(si)(nx, ny, extrapolate=True)(q))
            e.__dict__.setdefault('resolvers', {})[name] = f
        return e.fresh(name, -1e4, 1e4)


class Akima(Pchip):
    """No shape contract: any value between the knots."""
    kind = 'akima'

    def one(self, v):
        for a, b in zip(self.x, self.y):
            if builtins.bool(v == a):
                return b
        if builtins.bool(v < self.x[0]) or builtins.bool(v > self.x[-1]):
            return float('nan')
        return self.free(v, 'in')

    @staticmethod
    def scipy_class(si):
        return si.Akima1DInterpolator


def k(t):
    if isinstance(t, Sym):
        if t.const is None:
            return t.key()
        t = t.const
    return round(float(t), 7) + 0.0


def _lin(name):
    def make(x, y, *a, **kw):
        import scipy.interpolate as si
        cls = getattr(si, name)
        if not contains(x) and not contains(y):
            o = cls(np.array(objarr(x), float), np.array(objarr(y), float),
                    *a, **kw)
            return lambda q, *b, **c: wrap(np.asarray(o(
                np.array(objarr(q), float), *b, **c)).astype(object))
        return LinearMap(lambda p, r: cls(p, r, *a, **kw), list(objarr(x)),
                         list(objarr(y)))
    make.__name__ = name
    return make


def pchip_interpolate(x, y, q, der=0, axis=0):
    return Pchip(x, y)(q)


class _InterpolateProxy:
    _over = {'PchipInterpolator': Pchip, 'interp1d': Interp1d,
             'Akima1DInterpolator': Akima,
             'pchip_interpolate': pchip_interpolate}

    def __getattr__(self, name):
        import scipy.interpolate as si
        if name in self._over:
            return self._over[name]
        v = getattr(si, name)
        if name in ('CubicSpline', 'make_interp_spline', 'KroghInterpolator',
                    'BarycentricInterpolator', 'InterpolatedUnivariateSpline',
                    'UnivariateSpline'):
            return _lin(name)
        return v


INTERPOLATE = _InterpolateProxy()


class _ScipyProxy:
    def __getattr__(self, name):
        import scipy
        if name == 'interpolate':
            return INTERPOLATE
        return getattr(scipy, name)


SCIPY = _ScipyProxy()


# ---------------------------------------------------------------- netCDF
FILL = {'f8': 9.969209968386869e+36, 'f4': 9.969209968386869e+36,
        'i4': -2147483647, 'i8': -9223372036854775806, 'i2': -32767,
        'i1': -127, 'u1': 255, 'u2': 65535, 'u4': 4294967295}


class FakeVar:
    def __init__(self, ds, name, dtype, dims, kw):
        d = self.__dict__
        d['_ds'], d['name'], d['dtype'], d['dimensions'] = ds, name, dtype, \
            tuple(dims)
        d['_kw'], d['_attrs'] = kw, {}
        # what is never written holds the default of the format
        fill = kw.get('fill_value')
        if fill is not None and fill is not False:
            d['_attrs']['_FillValue'] = fill
        else:
            fill = FILL.get(str(dtype), FILL.get(
                np.dtype(dtype).str[1:] if dtype is not str else 'S1',
                np.nan))
        d['_fill'] = fill
        d['_data'] = np.full(ds._shape(dims), fill, dtype=object)

    def __setattr__(self, k, v):
        if k in self.__dict__:
            self.__dict__[k] = v
        else:
            self._attrs[k] = v

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        a = self.__dict__.get('_attrs', {})
        if k in a:
            return a[k]
        raise AttributeError(k)

    def setncattr(self, k, v):
        self._attrs[k] = v

    def setncatts(self, d):
        self._attrs.update(d)

    def ncattrs(self):
        return list(self._attrs)

    def getncattr(self, k):
        return self._attrs[k]

    @property
    def shape(self):
        return self._fit().shape

    def _fit(self):
        """Grow to the current size of the unlimited dimensions."""
        shp = self._ds._shape(self.dimensions)
        if self._data.shape != shp:
            new = np.full(shp, self._fill, dtype=object)
            new[tuple(slice(0, n) for n in self._data.shape)] = self._data
            self.__dict__['_data'] = new
        return self._data

    def _key(self, key, vshape=None):
        if not isinstance(key, tuple):
            key = (key,)
        if any(x is Ellipsis for x in key):
            i = [x is Ellipsis for x in key].index(True)
            n = len(self.dimensions) - (len(key) - 1)
            key = key[:i] + (slice(None),) * n + key[i + 1:]
        key = key + (slice(None),) * (len(self.dimensions) - len(key))
        return tuple(self._one(x) for x in key)

    @staticmethod
    def _one(x):
        if isinstance(x, slice):
            return slice(*[None if v is None else int(v)
                           for v in (x.start, x.stop, x.step)])
        if isinstance(x, (int, np.integer, Sym)):
            return int(x)
        return np.asarray(x)

    def __setitem__(self, key, val):
        key = self._key(key)
        val = objarr(val)
        data = self._fit()
        # growth along unlimited dimensions
        vdim = 0
        for n, (d, kx) in enumerate(zip(self.dimensions, key)):
            if self._ds.dimensions[d].unlimited:
                if isinstance(kx, slice):
                    ln = val.shape[vdim] if val.ndim == \
                        sum(isinstance(q, slice) or isinstance(q, np.ndarray)
                            for q in key) else 1
                    start = kx.start or 0
                    if start < 0:
                        start = start + self._ds.dimensions[d].size
                    stop = kx.stop if kx.stop is not None else \
                        max(start + ln, self._ds.dimensions[d].size
                            if kx.stop is None and
                            self._ds.dimensions[d].size else 0)
                    need = stop
                elif isinstance(kx, int):
                    need = kx + 1 if kx >= 0 else 0
                else:
                    need = int(kx.max()) + 1 if kx.dtype != bool else len(kx)
                if need > self._ds.dimensions[d].size:
                    self._ds.dimensions[d].size = need
            if not isinstance(kx, int):
                vdim += 1
        data = self._fit()
        # fixed dimensions: out-of-range slices clamp as in python
        data[key] = val

    def __getitem__(self, key):
        return wrap(self._fit()[self._key(key)])

    def __array__(self, dtype=None):
        return np.asarray(self._fit(), dtype=dtype)

    def __len__(self):
        return len(self._fit())


class FakeDim:
    def __init__(self, name, size):
        self.name = name
        self.unlimited = size is None or size == 0
        self.size = 0 if size is None else int(size)

    def __len__(self):
        return self.size

    def isunlimited(self):
        return self.unlimited


class FakeFS:
    def __init__(self):
        self.nc = {}          # path -> FakeNC state
        self.inputs = {}      # path -> xr.Dataset
        self.files = {}       # path -> list of cells / bytes
        self.dirs = set()     # directories of the in-memory files
        self.log = []

    def isdir(self, p):
        p = p.rstrip('/')
        return p in self.dirs or any(
            q.startswith(p + '/') for q in self.paths() | self.dirs)

    def paths(self):
        return set(self.nc) | set(self.inputs) | set(self.files)

    def listdir(self, p):
        p = p.rstrip('/') + '/'
        out = []
        for q in list(self.files) + list(self.inputs) + list(self.nc) + \
                sorted(self.dirs):
            if q.startswith(p):
                n = q[len(p):].split('/')[0]
                if n and n not in out:
                    out.append(n)
        return out


ROOT = '/symx/fs'             # nothing real lies here


def mine(p):
    p = os.fspath(p) if hasattr(p, '__fspath__') else p
    return isinstance(p, str) and (p == ROOT or p.startswith(ROOT + '/'))


def _onfs(real, f):
    def g(p='.', *a, **k):
        return f(os.fspath(p), *a, **k) if mine(p) else real(p, *a, **k)
    return g


def _mkdir(p, mode=0o777, exist_ok=True):
    if FS.isdir(p) and not exist_ok:
        raise FileExistsError(p)
    FS.dirs.add(p.rstrip('/'))


def _walk(p, *a, **k):
    ns = FS.listdir(p)
    ds = [n for n in ns if FS.isdir(p.rstrip('/') + '/' + n)]
    yield p, ds, [n for n in ns if n not in ds]
    for d in ds:
        yield from _walk(p.rstrip('/') + '/' + d)


class _Entry:
    def __init__(self, d, n):
        self.name, self.path = n, d.rstrip('/') + '/' + n

    def is_file(self, **k):
        return self.path in FS.paths()

    def is_dir(self, **k):
        return not self.is_file()

    def __fspath__(self):
        return self.path


class _Scan(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _remove(p):
    for d in (FS.nc, FS.inputs, FS.files):
        if p in d:
            del d[p]
            return
    raise FileNotFoundError(p)


def _replace(a, b, **k):
    for d in (FS.nc, FS.inputs, FS.files):
        if a in d:
            d[b] = d.pop(a)
            return
    raise FileNotFoundError(a)


def make_os():
    import fnmatch
    import glob
    op = os.path
    path = ModProxy(op, {
        'exists': _onfs(op.exists, lambda p: p in FS.paths() or FS.isdir(p)),
        'isfile': _onfs(op.isfile, lambda p: p in FS.paths()),
        'isdir': _onfs(op.isdir, lambda p: FS.isdir(p)),
        'islink': _onfs(op.islink, lambda p: False),
        'realpath': _onfs(op.realpath, lambda p, **k: op.normpath(p)),
        'getsize': _onfs(op.getsize, lambda p: len(FS.files[p]))})
    osp = ModProxy(os, {
        'path': path, 'makedirs': _onfs(os.makedirs, lambda p, mode=0o777,
                                        exist_ok=False:
                                        _mkdir(p, mode, exist_ok)),
        'mkdir': _onfs(os.mkdir, lambda p, *a, **k: _mkdir(p, 0, False)),
        'listdir': _onfs(os.listdir, lambda p: FS.listdir(p)),
        'scandir': _onfs(os.scandir, lambda p: _Scan(
            _Entry(p, n) for n in FS.listdir(p))),
        'walk': _onfs(os.walk, _walk),
        'access': _onfs(os.access, lambda p, *a, **k: True),
        'remove': _onfs(os.remove, _remove),
        'unlink': _onfs(os.unlink, _remove),
        'rename': _onfs(os.rename, _replace),
        'replace': _onfs(os.replace, _replace)})

    def gl(real):
        def f(pat, *a, **k):
            if not mine(pat):
                return real(pat, *a, **k)
            return [p for p in list(FS.files) + list(FS.inputs) + list(FS.nc)
                    if fnmatch.fnmatch(p, pat) and
                    p.count('/') == pat.count('/')]
        return f
    globp = ModProxy(glob, {'glob': gl(glob.glob),
                            'iglob': gl(glob.iglob)})
    return osp, path, globp


FS = FakeFS()


class FakeNC:
    def __init__(self, filename, mode='r', **kw):
        d = self.__dict__
        d['path'] = filename
        if mode in ('w', 'ws', 'x'):
            if mine(filename) and not FS.isdir(os.path.dirname(filename)):
                raise PermissionError(13, 'Permission denied', filename)
            d['dimensions'], d['variables'], d['_attrs'] = {}, {}, {}
            FS.nc[filename] = self
            d['_opened'] = 'w'
        else:
            if filename not in FS.nc:
                raise FileNotFoundError(filename)
            o = FS.nc[filename]
            d['dimensions'], d['variables'], d['_attrs'] = \
                o.dimensions, o.variables, o._attrs
            for v in d['variables'].values():
                v.__dict__['_ds'] = self
            FS.nc[filename] = self

    def _shape(self, dims):
        return tuple(self.dimensions[x].size for x in dims)

    def createDimension(self, name, size=None):
        if name in self.dimensions:
            raise RuntimeError('NetCDF: String match to name in use')
        self.dimensions[name] = FakeDim(name, size)
        return self.dimensions[name]

    def createVariable(self, name, dtype, dims=(), **kw):
        if isinstance(dims, str):
            dims = (dims,)
        for x in dims:
            if x not in self.dimensions:
                raise KeyError('dimension %s not defined' % x)
        if name in self.variables:
            raise RuntimeError('NetCDF: String match to name in use')
        self.variables[name] = FakeVar(self, name, dtype, dims, kw)
        return self.variables[name]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    sync = close

    def __getitem__(self, k):
        return self.variables[k]

    def __setattr__(self, k, v):
        self._attrs[k] = v

    def setncattr(self, k, v):
        self._attrs[k] = v

    def setncatts(self, d):
        self._attrs.update(d)

    def ncattrs(self):
        return list(self._attrs)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        a = self.__dict__.get('_attrs', {})
        if k in a:
            return a[k]
        raise AttributeError(k)


# ---------------------------------------------------------------- files
class SymBytes:
    """Bytes of a file, each an integer Sym in 0..255 (or a concrete int)."""

    def __init__(self, cells):
        self.cells = list(cells)

    def __len__(self):
        return len(self.cells)

    def __bool__(self):
        return bool(self.cells)

    def __getitem__(self, kx):
        if isinstance(kx, slice):
            return SymBytes(self.cells[kx])
        return self.cells[kx]

    def __iter__(self):
        return iter(self.cells)

    def __add__(self, o):
        return SymBytes(self.cells + list(o))

    def __eq__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            if len(o) != len(self):
                return False
            return sym.band(*[a == b for a, b in zip(self.cells, o)])
        return NotImplemented

    __hash__ = object.__hash__


class SymFile:
    def __init__(self, cells):
        self.cells = list(cells)
        self.pos = 0

    def read(self, n=-1):
        n = int(n)
        if n < 0:
            n = len(self.cells) - self.pos
        r = self.cells[self.pos:self.pos + n]
        self.pos = min(len(self.cells), self.pos + n)
        return SymBytes(r) if r else b''

    def seek(self, off, whence=0):
        off = int(off)
        self.pos = off if whence == 0 else self.pos + off if whence == 1 \
            else len(self.cells) + off
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def sym_open(path, mode='r', *a, **kw):
    p = str(path)
    if p in FS.files and 'b' in mode:
        return SymFile(FS.files[p])
    return builtins.open(path, mode, *a, **kw)


def decode(fmt, cells):
    """Decode integer formats from symbolic bytes."""
    order = '<'
    f = fmt
    if f and f[0] in '<>=!@':
        order = '>' if f[0] in '>!' else '<'
        f = f[1:]
    out, i = [], 0
    num = ''
    for ch in f:
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        num = ''
        size = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4,
                'L': 4, 'q': 8, 'Q': 8}.get(ch)
        if size is None:
            raise Unsupported('struct format ' + fmt)
        for _ in range(n):
            b = cells[i:i + size]
            if len(b) != size:
                raise _struct.error('unpack requires a buffer of %d bytes'
                                    % (i + size))
            i += size
            if order == '>':
                b = b[::-1]
            u = sym.ssum([c * (256 ** p) for p, c in enumerate(b)])
            if ch.islower():
                top = 256 ** size // 2
                u = ite(u >= top, u - 256 ** size, u)
            out.append(u)
    if i != len(cells):
        raise _struct.error('unpack requires a buffer of %d bytes' % i)
    return tuple(out)


class _StructProxy:
    def __getattr__(self, k):
        return getattr(_struct, k)

    @staticmethod
    def unpack(fmt, buf):
        if isinstance(buf, SymBytes):
            return decode(fmt, list(buf))
        return _struct.unpack(fmt, buf)

    @staticmethod
    def unpack_from(fmt, buf, offset=0):
        if isinstance(buf, SymBytes):
            n = _struct.calcsize(fmt)
            return decode(fmt, list(buf)[offset:offset + n])
        return _struct.unpack_from(fmt, buf, offset)

    @staticmethod
    def iter_unpack(fmt, buf):
        if isinstance(buf, SymBytes):
            n = _struct.calcsize(fmt)
            c = list(buf)
            if len(c) % n:
                raise _struct.error('iterative unpacking requires a buffer of '
                                    'a multiple of %d bytes' % n)
            return iter([decode(fmt, c[i:i + n])
                         for i in range(0, len(c), n)])
        return _struct.iter_unpack(fmt, buf)

    class Struct:
        def __init__(self, fmt):
            self.format, self.size = fmt, _struct.calcsize(fmt)

        def unpack(self, buf):
            return _StructProxy.unpack(self.format, buf)


STRUCT = _StructProxy()


def _frombuffer(buf, dtype=float, count=-1, offset=0):
    if not isinstance(buf, SymBytes):
        return wrap(np.frombuffer(buf, dtype, count, offset))
    dt = np.dtype(dtype)
    if dt.kind not in 'iu':
        raise Unsupported('frombuffer ' + str(dt))
    ch = {('i', 1): 'b', ('u', 1): 'B', ('i', 2): 'h', ('u', 2): 'H',
          ('i', 4): 'i', ('u', 4): 'I'}[(dt.kind, dt.itemsize)]
    o = '>' if dt.byteorder == '>' else '<'
    c = list(buf)[offset:]
    n = len(c) // dt.itemsize
    if count >= 0:
        n = min(n, count)
    vals = decode('%s%d%s' % (o, n, ch), c[:n * dt.itemsize]) if n else ()
    return wrap(objarr(list(vals)))


def _fromfile(f, dtype=float, count=-1, sep='', offset=0):
    p = str(f)
    if isinstance(f, SymFile):
        n = -1 if count < 0 else count * np.dtype(dtype).itemsize
        return _frombuffer(f.read(n) or SymBytes([]), dtype)
    if p in FS.files:
        c = FS.files[p][offset:]
        return _frombuffer(SymBytes(c), dtype, count)
    return wrap(np.fromfile(f, dtype, count, sep, offset))


nparr._NPProxy._over['frombuffer'] = _frombuffer
nparr._NPProxy._over['fromfile'] = _fromfile


def read_csv(real):
    """pd.read_csv on an input table registered by the harness."""
    def f(path, *args, **kw):
        import pandas as pd
        p = str(path)
        if p not in FS.files:
            return real(path, *args, **kw)
        rows = [list(r) for r in FS.files[p]]
        kw.pop('delim_whitespace', None)
        kw.pop('sep', None)
        kw.pop('delimiter', None)
        kw.pop('engine', None)
        kw.pop('dtype', None)
        header = kw.pop('header', 'infer')
        names = kw.pop('names', None)
        nrows = kw.pop('nrows', None)
        skip = kw.pop('skiprows', 0) or 0
        usecols = kw.pop('usecols', None)
        index_col = kw.pop('index_col', None)
        if kw or index_col not in (None, False):
            raise Unsupported('read_csv option %s' % list(kw))
        rows = rows[int(skip):]
        if header == 'infer':
            header = None if names is not None else 0
        if header is not None:
            hd, rows = rows[header], rows[header + 1:]
            if names is None:
                names = hd
        n = len(rows[0]) if rows else len(names or [])
        names = list(range(n)) if names is None else list(names)
        df = pd.DataFrame({nm: pd.Series([r[i] if i < len(r) else float('nan')
                                          for r in rows], dtype=object)
                           for i, nm in enumerate(names)} if n <= len(names)
                          else {nm: pd.Series(
                              [r[i + n - len(names)] for r in rows],
                              dtype=object) for i, nm in enumerate(names)})
        if n > len(names):
            # pandas turns the surplus leading columns into the index
            df.index = [tuple(r[:n - len(names)]) for r in rows]
        if usecols is not None:
            df = df[[names[c] if isinstance(c, int) else c for c in usecols]]
        if nrows is not None:
            df = df.head(int(nrows))
        return df
    return f


class ModProxy(types.ModuleType):
    """A module with some attributes replaced."""

    def __init__(self, mod, over):
        super().__init__(mod.__name__)
        self.__dict__['_mod'] = mod
        self.__dict__['_over'] = over

    def __getattr__(self, k):
        if k in self._over:
            return self._over[k]
        return getattr(self._mod, k)


def open_dataset(real):
    def f(path, *a, **kw):
        p = str(path)
        if p in FS.inputs:
            return clone(FS.inputs[p])
        if p in FS.nc:
            raise Unsupported('re-reading an output file')
        return real(path, *a, **kw)
    return f


def clone(ds):
    return ds.copy(deep=True)


def open_mfdataset(real):
    def f(path, *a, **kw):
        import fnmatch
        import xarray as xr
        pats = [path] if isinstance(path, str) else [str(p) for p in path]
        hits = []
        for pat in pats:
            hits.extend(p for p in sorted(FS.inputs)
                        if fnmatch.fnmatch(p, pat) or p == pat)
        if hits:
            dss = [clone(FS.inputs[p]) for p in hits]
            if len(dss) == 1:
                return dss[0]
            if len({tuple(sorted(d.data_vars)) for d in dss}) == 1:
                dss.sort(key=lambda d: d.indexes['time'][0])
                return xr.concat(dss, dim='time')
            return xr.merge(dss)
        return real(path, *a, **kw)
    return f
