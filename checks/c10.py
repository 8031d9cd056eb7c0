"""C10: each cell depends on its own inputs; masked cells stay empty."""
import numpy as np

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'cells': '2..9', 'days': '2', 'mask': 'symbolic values in -2..2, '
          'and missing', 'forcing grid': 'up to 4x4, permuted'}
OUTSIDE = ['unstructured forcing on a domain with other dimensions']

SUB = ('temp', 'prec', 'shortwave', 'wind', 'tskc', 'vapor_pressure',
       'longwave', 'rel_humid', 'spec_humid', 'air_pressure')
DAY = ('t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave',
       'tskc', 'pet', 'wind', 'daylength')


class Cells:
    """Inputs of the cells of a world, by coordinate."""

    def __init__(self, ctx):
        self.ctx, self.s = ctx, {}

    def v(self, name, t, key, lo, hi):
        k = (name, t) + key
        if k not in self.s:
            self.s[k] = self.ctx.real('_'.join(map(str, k)), lo, hi)
        return self.s[k]

    def world(self, keys, shape, dims, tag, coords, **kw):
        """keys: index -> name of the cell."""
        K = lambda i: keys[tuple(i)]
        n = {k: j for j, k in enumerate(sorted(set(keys.values())))}
        N = lambda i: n[K(i)]
        base = self.base = getattr(self, 'base', n)
        N = lambda i: base[K(i)]
        fl = e2e.full(
            prec=lambda t, *i: self.v('p', t, K(i), 0, 50),
            wind=lambda t, *i: self.v('w', t, K(i), 0, 20),
            tskc=lambda t, *i: self.v('c', t, K(i), 0, 1),
            shortwave=lambda t, *i: self.v('s', t, K(i), 0, 400),
            t_min=lambda t, *i: 2.0 + t + 0.3 * N(i),
            t_max=lambda t, *i: 12.0 - t + 0.7 * N(i),
            vapor_pressure=lambda t, *i: 600.0 + 9 * t + 4.0 * N(i))
        drop = kw.pop('drop', ())
        for k in drop:
            del fl[k]
        return e2e.World(
            self.ctx, days=2, start='2001-05-10', shape=shape, dims=dims,
            coords=coords, elev=lambda *i: 100.0 + 60.0 * N(i),
            forcing=fl,
            state=dict(prec=lambda t, *i: 1.0 + 0.2 * N(i),
                       t_min=lambda t, *i: 3.0 + 0.4 * N(i),
                       t_max=lambda t, *i: 13.0 + 0.9 * N(i)),
            tag=tag, **kw)


def empty(ctx, x):
    if hasattr(x, 't'):
        return False
    return not ctx.isnum(x) or abs(float(x)) > 1e30


def options(daily, **kw):
    names = DAY if daily else SUB
    a = dict(time_step=1440 if daily else 360,
             out_vars={k: {'out_name': k} for k in names})
    a.update(kw)
    return names, a


def alone(ctx, shape=(2, 2), lats=(40.0, 41.5), lons=(-100.0, 20.0),
          daily=False, mask=None, post=None, drop=(), **kw):
    """Each cell of a run holds what a run of that cell alone gives."""
    C = Cells(ctx)
    keys = {(i, j): ('%g' % lats[i], '%g' % lons[j])
            for i, j in np.ndindex(*shape)}
    names, args = options(daily, **kw)
    w = C.world(keys, shape, ('lat', 'lon'), 'all',
                dict(lat=lats, lon=lons), mask=mask, post=post, drop=drop)
    (o,) = w.run(**args).values()
    m = np.ones(shape) if mask is None else np.asarray(mask, dtype=float)
    for i, j in np.ndindex(*shape):
        got = {v: list(o['vars'][v]['data'][:, i, j]) for v in names}
        if not m[i, j] > 0:
            ctx.prove(all(empty(ctx, x) for v in names for x in got[v]),
                      'masked cells hold the missing value')
            continue
        w1 = C.world({(0, 0): keys[i, j]}, (1, 1), ('lat', 'lon'),
                     'c%d%d' % (i, j), dict(lat=[lats[i]], lon=[lons[j]]),
                     drop=drop)
        (o1,) = w1.run(**args).values()
        for v in names:
            ctx.prove_close(got[v], list(o1['vars'][v]['data'][:, 0, 0]),
                            v + ' is what the cell alone gives', rtol=1e-6)
        if (i, j) == (0, 0):
            ctx.observe('prec', got['prec'])
    ctx.prove(list(np.asarray(o['vars']['lat']['data'])) == list(lats) and
              list(np.asarray(o['vars']['lon']['data'])) == list(lons),
              'coordinates are those of the domain')


def masks(ctx, shape=(2, 2), fixed=None, daily=False, **kw):
    """Symbolic mask values: cells are computed exactly where positive."""
    M = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        M[i] = ctx.real('m_%d_%d' % i, -2, 2)
    for i, v in (fixed or {}).items():
        M[i] = v
    C = Cells(ctx)
    keys = {i: ('%d' % i[0], '%d' % i[1]) for i in np.ndindex(*shape)}
    names, args = options(daily, **kw)
    w = C.world(keys, shape, ('lat', 'lon'), 'all', {}, mask=M)
    (o,) = w.run(**args).values()
    for i in np.ndindex(*shape):
        d = {v: list(o['vars'][v]['data'][(slice(None),) + i])
             for v in names}
        e = [empty(ctx, x) for v in names for x in d[v]]
        ctx.prove(all(e) or not any(e), 'cells are computed whole')
        on = M[i] > 0
        ctx.prove(ctx.bnot(on) if all(e) else on,
                  'cells are computed exactly where the mask is positive')
        if not any(e):
            n = len(d['wind']) // 2
            ctx.prove_close(d['wind'],
                            [C.s[('w', t) + keys[i]] for t in range(2)
                             for _ in range(n)],
                            'wind of the cell itself', rtol=1e-6)
            if not daily:
                ctx.prove_close(d['prec'],
                                [C.s[('p', t) + keys[i]] / n
                                 for t in range(2) for _ in range(n)],
                                'precipitation of the cell itself',
                                rtol=1e-6)


def units(ctx, n=4, mask=None, post=None, daily=False, **kw):
    """Unit-based domain: one dimension, latitude and longitude as data."""
    C = Cells(ctx)
    lats = [40.0, 41.0, -12.5, 39.0, 8.0][:n]
    lons = [-100.0, 15.0, 77.0, 110.0, 3.0][:n]
    keys = {(i,): ('u%d' % i,) for i in range(n)}
    names, args = options(daily, **kw)
    w = C.world(keys, (n,), ('hru',), 'all', {}, mask=mask, post=post)
    w.latlon = lambda i: (lats[i], lons[i])
    (o,) = w.run(**args).values()
    m = np.ones(n) if mask is None else np.asarray(mask, dtype=float)
    for i in range(n):
        got = {v: list(o['vars'][v]['data'][:, i]) for v in names}
        if not m[i] > 0:
            ctx.prove(all(empty(ctx, x) for v in names for x in got[v]),
                      'masked units hold the missing value')
            continue
        w1 = C.world({(0, 0): keys[i,]}, (1, 1), ('lat', 'lon'), 'u%d' % i,
                     dict(lat=[lats[i]], lon=[lons[i]]))
        (o1,) = w1.run(**dict(args, chunks={})).values()
        for v in names:
            ctx.prove_close(got[v], list(o1['vars'][v]['data'][:, 0, 0]),
                            v + ' is what the unit alone gives', rtol=1e-6)


# forcings and states that are laid out differently from the domain
def order(**kw):
    def f(w):
        for name in ('met', 'st'):
            ds = getattr(w, name)
            setattr(w, name, ds.isel(**{d: p for d, p in kw.items()
                                        if d in ds.dims}))
    return f


def larger(extra=2, junk=7.0e3):
    """Cells around the domain, before and after."""
    def f(w):
        import xarray as xr
        for name in ('met', 'st'):
            ds = getattr(w, name)
            for d in w.dims:
                step = 0.5
                c = ds[d].values.astype(float)
                new = xr.full_like(ds.isel({d: [0]}), 0)
                new = new.map(lambda a: a.astype(float) * 0 + junk
                              if a.dtype != object else
                              xr.DataArray(np.full(a.shape, junk),
                                           dims=a.dims, coords=a.coords))
                pre = new.assign_coords({d: [c.min() - step * 3]})
                post = new.assign_coords({d: [c.max() + step * 5]})
                ds = xr.concat([pre, ds, post], dim=d)
            setattr(w, name, ds)
    return f


def both(*fs):
    def f(w):
        for g in fs:
            g(w)
    return f


def domain_order(**kw):
    """The domain in another order than the forcings."""
    def f(w):
        w.met = w.met.isel({d: p for d, p in kw.items()})
        w.st = w.st.isel({d: p[::-1] for d, p in kw.items()})
    return f


def nan_masked(w):
    """No forcing at the masked cells."""
    for name in ('met', 'st'):
        ds = getattr(w, name)
        m = w.domain['mask']
        out = ds.copy()
        for v in ds.data_vars:
            a = np.array(ds[v].values, dtype=object)
            for i in np.ndindex(*w.shape):
                if not float(m.values[i]) > 0:
                    a[(slice(None),) + i] = float('nan')
            out[v] = (ds[v].dims, w.num(a))
        setattr(w, name, out)


def cases(tier):
    nan = float('nan')
    c = [Case('alone', alone, budget=120),
         Case('alone-daily', alone, daily=True),
         Case('alone-utc', alone, utc_offset=True, budget=120),
         Case('alone-mask', alone, mask=[[1, 0], [nan, -1]], post=nan_masked),
         Case('alone-3x1', alone, shape=(3, 1), lats=(60.0, 0.5, -33.0),
              lons=(5.0,), mask=[[2], [0.5], [0]]),
         Case('estimated', alone, shape=(1, 2), lats=(40.0,), daily=True,
              drop=('tskc', 't_day', 'pet'), budget=120),
         Case('masks', masks, fixed={(0, 1): nan}),
         Case('masks-daily', masks, daily=True, fixed={(1, 1): 0.0}),
         Case('masks-chunks', masks, fixed={(0, 0): -1.0, (1, 0): 1.0},
              chunks={'lat': 1, 'lon': 1}),
         Case('units', units, budget=120),
         Case('units-mask', units, mask=[0, 1, nan, 1], daily=True),
         Case('units-order', units, post=order(hru=[2, 0, 3, 1]), daily=True),
         Case('units-chunks', units, chunks={'hru': 3}, daily=True),
         Case('reversed', alone, post=order(lat=[1, 0]), daily=True),
         Case('permuted', alone, shape=(2, 3), lons=(-20.0, 0.0, 33.0),
              post=domain_order(lat=[1, 0], lon=[2, 0, 1]), daily=True),
         Case('larger', alone, lats=(40.0, 40.5), lons=(10.0, 10.5),
              post=both(larger(), order(lat=[3, 0, 2, 1])), daily=True),
         Case('larger-mask', alone, lats=(40.0, 40.5), lons=(10.0, 10.5),
              mask=[[0, 1], [1, 0]], post=larger()),
         Case('larger-chunks', alone, lats=(40.0, 40.5), lons=(10.0, 10.5),
              post=larger(), chunks={'lat': 1}, daily=True)]
    if tier == 'thorough':
        c += [Case('masks-2x3', masks, shape=(2, 3), daily=True, budget=900,
                   max_paths=200),
              Case('alone-3x3', alone, shape=(3, 3), lats=(70.0, 10.0, -50.0),
                   lons=(-170.0, 0.0, 99.0), budget=900),
              Case('units-5', units, n=5, budget=600, utc_offset=True),
              Case('larger-utc', alone, lats=(40.0, 40.5), lons=(10.0, 10.5),
                   post=both(larger(), order(lon=[2, 1, 3, 0])),
                   utc_offset=True, budget=600)]
    return c
