"""A small gridded world run through the public entry point: inputs are
given to `MetSim(params).run()` and the written files are read back.  In a
symbolic run the files are in-memory stand-ins; in a replay they are real."""
import os

import numpy as np
import pandas as pd

INV = dict(prec='prec', t_min='t_min', t_max='t_max')


class World:
    def __init__(self, ctx, days=2, start='2001-03-01', shape=(1, 1),
                 dims=('lat', 'lon'), coords=None, mask=None, elev=None,
                 forcing=None, state=None, domain_extra=None, params=None,
                 state_days=90, time=None, tag='w', state_start=None,
                 post=None, objects=False, mkout=True):
        self.ctx, self.dims, self.shape = ctx, tuple(dims), tuple(shape)
        self.days = days
        self.start = pd.Timestamp(start)
        self.time = pd.date_range(start, periods=days) if time is None \
            else time
        self.coords = coords or {}
        self.mask = np.ones(shape) if mask is None else \
            np.asarray(mask, dtype=object)
        self.elev = elev
        self.tag = tag
        self.post = post
        self.objects = objects      # arrays that can take symbolic values
        self.forcing = forcing or {}
        self.state = state or {}
        self.domain_extra = domain_extra or {}
        self.state_days = state_days
        self.state_start = state_start
        self.params = params or {}
        base = '/symx/fs' if ctx.sym else ctx.tmp
        self.dir = os.path.join(base, tag)
        if ctx.sym:
            from symx import stubs
            stubs.FS.dirs.add(self.dir)
            if mkout:
                stubs.FS.dirs.add(os.path.join(self.dir, 'out'))
        else:
            os.makedirs(os.path.join(self.dir, 'out') if mkout else self.dir,
                        exist_ok=True)

    # -- datasets
    def cube(self, v, n, lead='time'):
        """v: scalar | function(t, *idx) -> value; returns object/float cube"""
        shape = (n,) + self.shape
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = v(*i) if callable(v) else v
        return self.num(a)

    def num(self, a):
        a = np.asarray(a, dtype=object)
        if self.ctx.sym:
            from symx import sym
            if self.objects or any(isinstance(x, sym.Sym) for x in a.flat):
                return a
        return a.astype(float)

    def coord(self, d, i):
        c = self.coords.get(d)
        if c is not None:
            return c[i]
        return {'lat': 40.0 + 0.5 * i, 'lon': 10.0 + 0.5 * i}.get(d, float(i))

    def _coords(self):
        out = {}
        for d, n in zip(self.dims, self.shape):
            if d in self.coords and self.coords[d] is False:
                continue
            out[d] = (d, np.array([self.coord(d, i) for i in range(n)]))
        return out

    def build(self):
        import xarray as xr
        cs = self._coords()
        dom = {'mask': (self.dims, self.num(self.mask))}
        el = self.elev if self.elev is not None else 500.0
        a = np.empty(self.shape, dtype=object)
        for i in np.ndindex(*self.shape):
            a[i] = el(*i) if callable(el) else el
        dom['elev'] = (self.dims, self.num(a))
        for k, (lead, vals) in self.domain_extra.items():
            dom[k] = (lead + self.dims, vals)
        if 'month' in [d for k, (l, v) in self.domain_extra.items()
                       for d in l]:
            cs_d = dict(cs, month=('month', self.months))
        else:
            cs_d = cs
        if 'lat' not in self.dims:
            la = np.zeros(self.shape)
            lo = np.zeros(self.shape)
            for i in np.ndindex(*self.shape):
                la[i], lo[i] = self.latlon(*i)
            dom['lat'] = (self.dims, la)
            dom['lon'] = (self.dims, lo)
        self.domain = xr.Dataset(dom, coords=cs_d)
        f = {}
        for k, v in self.forcing.items():
            f[k] = (('time',) + self.dims, self.cube(v, len(self.time)))
        self.met = xr.Dataset(f, coords=dict(cs, time=self.time))
        st = dict(t_min=3.0, t_max=13.0, prec=1.0)
        st.update(self.state)
        s0 = self.state_start or (self.start - pd.Timedelta('90 days'))
        self.st = xr.Dataset(
            {k: (('time',) + self.dims, self.cube(v, self.state_days))
             for k, v in st.items()},
            coords=dict(cs, time=pd.date_range(s0, periods=self.state_days)))
        if self.post is not None:
            self.post(self)
        return self

    def latlon(self, *i):
        return 40.0, 10.0

    months = np.arange(12)

    def path(self, name):
        return os.path.join(self.dir, name)

    def store(self, name, ds):
        p = self.path(name)
        if self.ctx.sym:
            from symx import stubs
            stubs.FS.inputs[p] = ds
        else:
            ds.to_netcdf(p)
        return p

    def config(self):
        self.build()
        fv = {k: k for k in self.forcing}
        dv = {k: k for k in self.domain.data_vars}
        if 'lat' in self.dims:
            dv.update(lat='lat', lon='lon')
        p = dict(start=self.start.to_pydatetime(),
                 stop=(self.start + pd.Timedelta(days=self.days - 1))
                 .to_pydatetime(),
                 domain=self.store('domain.nc', self.domain),
                 state=self.store('state.nc', self.st),
                 forcing=self.store('met.nc', self.met),
                 out_dir=os.path.join(self.dir, 'out'), out_prefix='o',
                 forcing_fmt='netcdf', forcing_vars=fv, domain_vars=dv,
                 state_vars={'prec': 'prec', 't_min': 't_min',
                             't_max': 't_max'},
                 scheduler='single-threaded', num_workers=1,
                 out_precision='f8', time_step=360, verbose=50,
                 method='passthrough', chunks={},
                 out_vars={'prec': {'out_name': 'prec'}})
        p.update(self.params)
        return p

    def run(self, **over):
        from metsim.metsim import MetSim
        cfg = self.config()
        cfg.update(over)
        self.cfg = cfg
        ms = MetSim(cfg)
        ms.run()
        self.ms = ms
        return self.outputs()

    def outputs(self):
        """{basename: {'vars': {name: (dims, array)}, 'attrs':..., 'units':}}"""
        out = {}
        if self.ctx.sym:
            from symx import stubs
            for p, nc in stubs.FS.nc.items():
                if os.path.dirname(p) == os.path.join(self.dir, 'out'):
                    out[os.path.basename(p)] = read_nc(nc)
        else:
            import netCDF4
            d = os.path.join(self.dir, 'out')
            for f in sorted(os.listdir(d)):
                with netCDF4.Dataset(os.path.join(d, f)) as nc:
                    nc.set_auto_mask(False)
                    out[f] = read_nc(nc)
        return out


def read_nc(nc):
    vs = {}
    for n, v in nc.variables.items():
        a = np.asarray(v[:]) if v.dimensions else np.asarray(v[...])
        vs[n] = dict(dims=tuple(v.dimensions), data=a,
                     attrs={k: v.getncattr(k) for k in v.ncattrs()},
                     dtype=str(np.dtype(v.dtype)))
    return dict(vars=vs, attrs={k: getattr(nc, k) for k in nc.ncattrs()},
                dims={k: len(d) for k, d in nc.dimensions.items()})


# every daily quantity the sub-daily step needs, so that nothing is estimated
FULL = dict(t_min=2.0, t_max=12.0, prec=1.0, shortwave=150.0, wind=2.0,
            tskc=0.4, vapor_pressure=600.0, t_day=9.0, tfmax=0.6, pet=1.0,
            tdew=1.0)


def full(**kw):
    d = dict(FULL)
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}
