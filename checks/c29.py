"""C29: a failure anywhere in a run reaches the caller."""
import builtins
import os

import numpy as np

from symx.runner import Case
from . import cells as cl, e2e

ASSUMPTIONS = ['faults are exceptions raised at the boundary of the package: '
               'by reading and writing files, by the method and by the '
               'sub-daily step']
BOUNDS = {'fault': 'the first to the twentieth use of a boundary, every one',
          'kind': 'OSError, ValueError, KeyError, RuntimeError',
          'wind': '0..60 m/s', 'cells': '1..6', 'chunks': '1..6'}
OUTSIDE = ['faults that do not raise', 'faults of the workers of a '
           'distributed scheduler']
KINDS = (OSError, ValueError, KeyError, RuntimeError)


class Plan:
    def __init__(self, ctx, n, kind):
        self.n, self.kind, self.count, self.fired = n, kind, 0, False
        self.on = True

    def step(self):
        if not self.on:
            return
        k = self.count
        self.count += 1
        if bool(self.n == k):
            self.fired = True
            raise self.kind('planned')


class Ahead:
    """A module or object, some attributes of which are replaced."""

    def __init__(self, of, **new):
        self.__dict__['_of'] = of
        self.__dict__.update(new)

    def __getattr__(self, k):
        return getattr(self._of, k)


def before(plan, f):
    def g(*a, **k):
        plan.step()
        return f(*a, **k)
    return g


def files_of(plan, old, what):
    """A stand-in for `old` in front of the real one."""
    class Failing:
        def __init__(self, *a, **k):
            if what == 'open':
                plan.step()
            object.__setattr__(self, '_of', old(*a, **k))

        def __getattr__(self, k):
            if k == what or what == 'create' and k in ('createVariable',
                                                       'createDimension'):
                plan.step()
            return getattr(self._of, k)

        def __setattr__(self, k, v):
            setattr(self._of, k, v)

        def __getitem__(self, k):
            return self._of[k]

        def __enter__(self):
            self._of.__enter__()
            return self

        def __exit__(self, *a):
            r = self._of.__exit__(*a)
            if what == 'close' and a[0] is None:
                plan.step()
            return r
    return Failing


class inject:
    """Puts the plan in force at one boundary of the package."""

    def __init__(self, plan, site):
        self.plan, self.site = plan, site

    def __enter__(self):
        import metsim.io as io
        import metsim.metsim as mm
        self.keep, self.methods = [], None
        p, s = self.plan, self.site
        if s in ('open', 'variables', 'create', 'close'):
            if hasattr(mm, 'Dataset'):
                self.put(mm, 'Dataset', files_of(p, mm.Dataset, s))
        elif s == 'read':
            self.put(io, 'xr', Ahead(io.xr, **{
                k: before(p, getattr(io.xr, k))
                for k in ('open_dataset', 'open_mfdataset')}))
        elif s == 'text':
            self.put(io, 'pd', Ahead(io.pd, read_csv=before(
                p, io.pd.read_csv)))
        elif s == 'bytes':
            self.put(io, 'open', before(p, vars(io).get(
                'open', builtins.open)))
        elif s == 'step':
            if hasattr(mm, 'disaggregate'):
                self.put(mm, 'disaggregate', before(p, mm.disaggregate))
        elif s == 'geometry':
            if hasattr(mm, 'solar_geom'):
                self.put(mm, 'solar_geom', before(p, mm.solar_geom))
        else:
            self.methods = mm.MetSim.methods
            self.saved = dict(self.methods)
            for k, v in self.saved.items():
                self.methods[k] = Ahead(v, run=before(p, v.run))
        return self

    def put(self, where, name, new):
        self.keep.append((where, name, vars(where).get(name, self)))
        setattr(where, name, new)

    def __exit__(self, *a):
        for where, name, old in self.keep:
            if old is self:
                delattr(where, name)
            else:
                setattr(where, name, old)
        if self.methods is not None:
            self.methods.clear()
            self.methods.update(self.saved)


def go(ctx, site, top=8, shape=(2, 2), dims=('lat', 'lon'), chunks=None,
       ts=360, mask=None, days=2, kinds=KINDS, fmt='netcdf', **kw):
    S = {}
    names = ('wind', 'prec')

    def wind(t, *i):
        q = (t,) + i
        if q not in S:
            S[q] = ctx.real('w_%s' % '_'.join(map(str, q)), 0, 60)
        return S[q]
    w = e2e.World(ctx, days=days, shape=shape, dims=dims, mask=mask,
                  forcing=e2e.full(wind=wind), objects=True)
    if 'lat' not in dims:
        w.latlon = lambda *i: (40.0 + sum(i), 10.0 + 2 * sum(i))
    cfg = w.config()
    cfg.update(time_step=ts, chunks=chunks or {}, out_vars={
        k: {'out_name': k} for k in names})
    cfg.update(kw)
    if fmt != 'netcdf':
        cfg.update(texts(ctx, w, S, fmt, days, shape))
    plan = Plan(ctx, ctx.int('n', 0, top), ctx.choice('kind', kinds))
    from metsim.metsim import MetSim
    raised = False
    with inject(plan, site):
        try:
            MetSim(dict(cfg)).run()
        except Exception as e:
            # the engine's own signals are not failures of the run
            if not plan.fired:
                raise
            raised = True
    ctx.prove(raised == plan.fired, 'a failure reaches the caller')
    ctx.observe('uses', plan.count)
    if plan.fired:
        # and does not stand in the way of the next run
        MetSim(dict(cfg)).run()
    out = w.outputs()
    ctx.prove(len(out) == (days if kw.get('out_freq') else 1),
              'files of a run')
    m = np.ones(shape) if mask is None else np.asarray(mask)
    got = {}
    for f in sorted(out):
        v = out[f]['vars'].get('wind')
        ctx.prove(v is not None, 'variables of a run')
        if v is not None:
            got.setdefault('wind', []).extend(list(v['data']))
    per = 1440 // ts
    for i in np.ndindex(*shape):
        if m[i] > 0:
            x = [v[i] for v in got['wind']]
            ctx.prove_close(x, [S[(t,) + i] for t in range(days)
                                for _ in range(per)],
                            'a run without failure is complete')


def texts(ctx, w, S, fmt, days, shape):
    """The forcings as files of the cells."""
    d = cl.place(ctx, w)
    fixed = dict(prec=1.5, t_max=9.0, t_min=1.0, tskc=.5, shortwave=120.0)
    order = ('prec', 't_max', 't_min', 'wind', 'tskc', 'shortwave')
    files = []
    for i in np.ndindex(*shape):
        rows, data = [], []
        for t in range(days):
            b = cl.word(ctx, 'w_%d%d%d' % ((t,) + i))
            S[(t,) + i] = cl.value(ctx, b, 100.0, False)
            for k in order:
                data += b if k == 'wind' else cl.words(
                    ctx, [round(fixed[k] * 100)])
            rows.append([S[(t,) + i] if k == 'wind' else fixed[k]
                         for k in order])
        p = os.path.join(d, 'data_%r_%r' % (w.coord('lat', i[0]),
                                            w.coord('lon', i[1])))
        files.append(cl.text(ctx, p, rows) if fmt == 'ascii' else
                     cl.binary(ctx, p, data))
    return dict(forcing=files, forcing_fmt=fmt, forcing_vars={
        k: k if fmt == 'ascii' else '100 unsigned' for k in order},
        constant_vars={k: v for k, v in e2e.FULL.items() if k not in order})


def cases(tier):
    one = {'lat': 1}
    c = []
    use = dict(open=4, variables=17, create=7, close=4, read=5, step=5,
               method=5, geometry=5)
    more = dict(open=6, variables=21, create=7, close=6, read=11, step=5,
                method=5, geometry=5)
    for i, s in enumerate(use):
        c += [Case(s, go, site=s, top=use[s], budget=120,
                   kinds=KINDS[i % 2::2]),
              Case(s + '-chunks', go, site=s, chunks=one, top=more[s],
                   kinds=KINDS[(i + 1) % 2::2], budget=120,
                   ts=1440 if s in ('read', 'method') else 360)]
    c += [Case('files', go, site='open', out_freq='D', chunks={'lon': 1},
               kinds=KINDS[:1], top=10),
          Case('text', go, site='text', fmt='ascii', top=9, ts=1440),
          Case('text-chunks', go, site='text', fmt='ascii', top=13, ts=1440,
               chunks=one, kinds=KINDS[1:3]),
          Case('bytes', go, site='bytes', fmt='binary', top=9, ts=1440),
          Case('units', go, site='method', dims=('hru',), shape=(3,),
               chunks={'hru': 1}, kinds=KINDS[1:3], top=6),
          Case('mask', go, site='method', mask=[[0, 1], [1, 1]],
               chunks={'lat': 1, 'lon': 1}, top=6)]
    return c
