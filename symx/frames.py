"""pandas and xarray methods that would turn symbolic objects into floats,
done on the symbols instead."""
import numpy as np

from . import nparr, sym


def SA(a):
    a = np.asarray(a)
    return a.view(nparr.SA)


def symbolic(x):
    return getattr(x, 'dtype', None) == object and \
        nparr.contains(np.asarray(x))


def anysym(x):
    import pandas as pd
    if isinstance(x, pd.DataFrame):
        return any(symbolic(x.iloc[:, i]) for i in range(x.shape[1]))
    return symbolic(x)


def isfloat(dt):
    dt = nparr.fixdtype(dt)
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def drop(xs, skipna):
    if skipna:
        return [x for x in xs if not sym.is_nan(x)]
    return list(xs)


RED = {'mean': lambda xs, k: nparr._meanf(xs),
       'sum': lambda xs, k: nparr._sumf(xs),
       'var': lambda xs, k: nparr._varf(xs, k.get('ddof', 1)),
       'std': lambda xs, k: sym.fn('sqrt', nparr._varf(xs, k.get('ddof', 1))),
       'min': lambda xs, k: nparr._redmin(xs),
       'max': lambda xs, k: nparr._redmax(xs),
       'median': lambda xs, k: nparr.quantile(xs, 0.5)}


def pandas_reductions():
    import pandas as pd

    def series(name, orig):
        f = RED[name]

        def red(self, axis=None, skipna=True, *a, **k):
            if not symbolic(self):
                return orig(self, axis, skipna, *a, **k) if axis is not None \
                    else orig(self, skipna=skipna, *a, **k)
            xs = list(np.asarray(self))
            ys = drop(xs, skipna)
            if not ys or len(ys) < len(xs) and not skipna:
                return float('nan') if name != 'sum' else 0.0
            return f(ys, k)
        return red

    def frame(name, orig):
        def red(self, axis=0, skipna=True, *a, **k):
            if not anysym(self):
                return orig(self, axis, skipna, *a, **k)
            if axis in (1, 'columns'):
                v = [getattr(self.iloc[i], name)(skipna=skipna, **k)
                     for i in range(len(self))]
                return pd.Series(v, index=self.index, dtype=object)
            v = [getattr(self.iloc[:, i], name)(skipna=skipna, **k)
                 for i in range(self.shape[1])]
            return pd.Series(v, index=self.columns, dtype=object)
        return red
    for n in RED:
        setattr(pd.Series, n, series(n, getattr(pd.Series, n)))
        setattr(pd.DataFrame, n, frame(n, getattr(pd.DataFrame, n)))

    def groupmean(orig):
        def mean(self, *a, **k):
            if anysym(self._selected_obj):
                return self.sum() / self.count()
            return orig(self, *a, **k)
        return mean
    from pandas.core.groupby import SeriesGroupBy, DataFrameGroupBy
    from pandas.core.resample import Resampler
    for c in (SeriesGroupBy, DataFrameGroupBy, Resampler):
        c.mean = groupmean(c.mean)


class Rolling:
    """Moving windows over a symbolic series."""

    def __init__(self, s, window, min_periods=None, center=False, **k):
        if not isinstance(window, (int, np.integer)) or k:
            raise sym.Unsupported('rolling window')
        self.s, self.n, self.c = s, int(window), center
        self.min = self.n if min_periods is None else min_periods

    def agg(self, f):
        import pandas as pd
        xs = list(np.asarray(self.s))
        off = (self.n - 1) // 2 if self.c else 0
        out = np.empty(len(xs), dtype=object)
        for i in range(len(xs)):
            lo, hi = i + off - self.n + 1, i + off + 1
            ys = drop(xs[max(lo, 0):max(min(hi, len(xs)), 0)], True)
            out[i] = f(ys) if len(ys) >= max(self.min, 1) else float('nan')
        return pd.Series(out, index=self.s.index, name=self.s.name)

    def mean(self, *a, **k):
        return self.agg(nparr._meanf)

    def sum(self, *a, **k):
        return self.agg(nparr._sumf)

    def min(self, *a, **k):
        return self.agg(nparr._redmin)

    def max(self, *a, **k):
        return self.agg(nparr._redmax)

    def apply(self, f, raw=False, **k):
        return self.agg(lambda ys: f(SA(nparr.objarr(ys))))

    def __getattr__(self, k):
        raise sym.Unsupported('rolling ' + k)


def elementwise(uf, cls, same):
    orig = cls.__array_ufunc__

    def f(self, u, method, *inputs, **kw):
        out = kw.get('out')
        if method == '__call__' and out is None and \
                any(symbolic(x) for x in inputs) and same(inputs):
            return uf(u, inputs)
        return orig(self, u, method, *inputs, **kw)
    cls.__array_ufunc__ = f


def install():
    import pandas as pd
    import xarray as xr
    pandas_reductions()

    def rolling(orig):
        def f(self, window, *a, **k):
            if symbolic(self):
                return Rolling(self, window, *a, **k)
            return orig(self, window, *a, **k)
        return f
    pd.Series.rolling = rolling(pd.Series.rolling)

    # ---- elementwise functions
    def pd_same(inputs):
        ss = [x for x in inputs if isinstance(x, pd.Series)]
        return not any(nparr.is_pandas(x) and not isinstance(
            x, (pd.Series, pd.Index)) for x in inputs) and \
            all(s.index.equals(ss[0].index) for s in ss)

    def pd_uf(u, inputs):
        s = next(x for x in inputs if isinstance(x, pd.Series))
        r = nparr.ufunc(u, '__call__', *[
            SA(x) if nparr.is_pandas(x) else x for x in inputs])
        return pd.Series(np.asarray(r), index=s.index, name=s.name)
    elementwise(pd_uf, pd.Series, pd_same)

    def xr_uf(u, inputs):
        def f(*xs):
            return np.asarray(nparr.ufunc(u, '__call__', *[
                SA(x) if isinstance(x, np.ndarray) else x for x in xs]))
        return xr.apply_ufunc(f, *inputs)
    elementwise(xr_uf, xr.DataArray, lambda inputs: not any(
        isinstance(x, (xr.Dataset, pd.Series)) for x in inputs))

    def unary(cls, name, how):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            if symbolic(self):
                r = how(SA(np.asarray(self)), *a, **k)
                if r is not NotImplemented:
                    if cls is pd.Series:
                        return pd.Series(np.asarray(r), index=self.index,
                                         name=self.name)
                    return self.copy(data=np.asarray(r))
            return orig(self, *a, **k)
        setattr(cls, name, f)

    def clip(v, lower=None, upper=None, min=None, max=None, **k):
        lo = lower if lower is not None else min
        hi = upper if upper is not None else max
        for x in (lo, hi):
            if nparr.is_pandas(x):
                return NotImplemented
        return nparr.F[np.clip](v, lo, hi)

    for c in (pd.Series, xr.DataArray):
        unary(c, 'clip', clip)
        unary(c, 'round', lambda v, decimals=0, **k: nparr.F[np.round](
            v, decimals))
    def astype(orig):
        def f(self, dtype, *a, **k):
            if symbolic(self) and isfloat(dtype):
                return self.copy()
            if isfloat(dtype):         # stay writable by symbols
                return self.copy(data=orig(self, float).data.astype(object))
            if symbolic(self):
                return self.copy(data=np.asarray(
                    SA(np.asarray(self)).astype(nparr.fixdtype(dtype))))
            return orig(self, nparr.fixdtype(dtype), *a, **k)
        return f
    xr.DataArray.astype = astype(xr.DataArray.astype)

    # ---- xarray
    import xarray.core.nanops as nanops

    def nan(name, orig, f):
        def g(a, axis=None, *args, **k):
            if symbolic(a):
                if args and name in ('nanvar', 'nanstd'):
                    k = dict(k, ddof=args[-1])
                return np.asarray(nparr.reduce_axis(
                    lambda xs: none(xs, f, k, name), nparr.objarr(a), axis),
                    dtype=object)
            return orig(a, axis, *args, **k)
        return g

    def none(xs, f, k, name):
        ys = drop(xs, True)
        if not ys:
            return 0.0 if name in ('nansum',) else float('nan')
        return f(ys, k)
    for n, f in RED.items():
        o = getattr(nanops, 'nan' + n)
        if n in ('var', 'std'):
            base = RED[n]
            f = (lambda b: lambda ys, k: b(ys, {'ddof': k.get('ddof', 0)}))(
                base)
        setattr(nanops, 'nan' + n, nan('nan' + n, o, f))

    def fill(orig, back):
        def g(self, dim, limit=None):
            if not symbolic(self):
                return orig(self, dim, limit)
            a = np.moveaxis(np.array(self, dtype=object),
                            self.get_axis_num(dim), 0)
            if back:
                a = a[::-1]
            n = np.zeros(a.shape[1:], dtype=int)
            for i in range(1, len(a)):
                for j in np.ndindex(*a.shape[1:]):
                    if sym.is_nan(a[i][j] if a.ndim > 1 else a[i]):
                        n[j] += 1
                        if limit is None or n[j] <= limit:
                            a[(i,) + j] = a[(i - 1,) + j]
                    else:
                        n[j] = 0
            if back:
                a = a[::-1]
            return self.copy(data=np.moveaxis(a, 0, self.get_axis_num(dim)))
        return g
    xr.DataArray.ffill = fill(xr.DataArray.ffill, False)
    xr.DataArray.bfill = fill(xr.DataArray.bfill, True)
