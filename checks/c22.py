"""C22: gridded forcings are aligned with the domain by day and place."""
import os

import numpy as np
import pandas as pd

from symx.runner import Case
from . import c10, e2e

ASSUMPTIONS = ['days of the forcings are in order and without gaps']
BOUNDS = {'values': 'every value in range', 'grid': 'up to 4x4 cells, every '
          'order of the dimensions', 'extra days': '0..40 on either side',
          'time of the stamps': '00:00:00..23:59:59 (from the list of the '
          'cases)', 'days of a run': '1..5'}
OUTSIDE = ['coordinates that differ by rounding', 'stamps in the last half '
           'second of a day, which count as the next one']

NAMES = ('prec', 'wind', 'tskc', 'pet', 't_min', 't_max')


class Record:
    """Values by coordinate and day, of a record longer than the run."""

    def __init__(self, ctx):
        self.ctx, self.s = ctx, {}

    def get(self, k, day, at):
        key = (k, day) + at
        if key not in self.s:
            n = '%s_%s_%s' % (k, day.strftime('%m%d'),
                              '_'.join('%g' % x for x in at))
            h = len(self.s) % 97
            self.s[key] = {
                'prec': lambda: self.ctx.real(n, 0, 300),
                'wind': lambda: self.ctx.real(n, 0, 60),
                'tskc': lambda: self.ctx.real(n, 0, 1),
                'pet': lambda: self.ctx.real(n, 0, 20),
                't_min': lambda: -10 + h / 100.0,
                't_max': lambda: 10 + h / 50.0}[k]()
        return self.s[key]


def align(ctx, days=2, start='2001-05-10', before=0, after=0, shape=(2, 2),
          dims=('lat', 'lon'), coords=None, order=None, post=None,
          stamp=None, rename=None, fmt='netcdf', split=None, names=NAMES,
          domain_dims=None, time_step=1440, **kw):
    R = Record(ctx)
    t0 = pd.Timestamp(start)
    rec = pd.date_range(t0 - pd.Timedelta(days=before),
                        periods=days + before + after)
    coords = coords or dict(lat=[40.0, 41.5, -3.0][:shape[0]],
                            lon=[-100.0, 20.0, 7.0][:shape[-1]])

    def at(i):
        return tuple(float(coords[d][j]) if d in coords and
                     coords[d] is not False else float(j)
                     for d, j in zip(dims, i))

    def val(k):
        return lambda t, *i: R.get(k, rec[t], at(i))

    def arrange(w):
        if post is not None:
            post(w)
        if order is not None:
            w.met = w.met.transpose(*order)
            w.st = w.st.transpose(*order[::-1])
        if domain_dims is not None:
            w.domain = w.domain.transpose(*domain_dims)
        if stamp is not None:
            s = pd.Timedelta(stamp)
            w.met['time'] = w.met.indexes['time'] + s
        if rename:
            w.met = w.met.rename({v: k for k, v in rename.items()})
    w = e2e.World(ctx, days=days, start=start, shape=shape, dims=dims,
                  coords=coords, time=rec, post=arrange, objects=True,
                  forcing=e2e.full(**{k: val(k) for k in names}))
    if len(dims) == 1:
        w.latlon = lambda i: (40.0 + i, 10.0 + i)
    args = dict(method='passthrough', time_step=time_step,
                out_vars={k: {'out_name': k} for k in names})
    args.update(kw)
    if rename:
        args['forcing_vars'] = {
            **{k: k for k in w.forcing if k not in rename.values()},
            **rename}
    if fmt == 'data':
        w.build()
        w.build = lambda: w
        args.update(forcing_fmt='data', forcing=w.met)
    elif split is not None:
        build = w.build

        def b():
            build()
            for n, part in enumerate(split(w.met)):
                w.store('part_%d.nc' % n, part)
            return w
        w.build = b
        args['forcing'] = os.path.join(w.dir, 'part_*.nc')
    (o,) = w.run(**args).values()
    od = o['vars'][names[0]]['dims']
    n = 1440 // time_step
    for i in np.ndindex(*shape):
        ix = dict(zip(dims, i))
        sel = (slice(None),) + tuple(ix[d] for d in od[1:])
        for k in names:
            got = list(o['vars'][k]['data'][sel])
            want = [R.get(k, rec[before + t], at(i)) / (
                n if k == 'prec' else 1) for t in range(days)
                for _ in range(n)]
            ctx.prove_close(got, want, 'the value of the day and the place',
                            rtol=1e-9)
    for d, c in zip(dims, shape):
        if d in o['vars']:
            ctx.prove([float(x) for x in o['vars'][d]['data']] ==
                      [(float(coords[d][j]) if coords.get(d) is not None and
                        coords[d] is not False else float(j))
                       for j in range(c)], 'coordinates of the domain')


def by_time(n):
    return lambda met: [met.isel(time=slice(0, n)),
                        met.isel(time=slice(n, None))]


def by_name(met):
    ks = sorted(met.data_vars)
    return [met[ks[::2]], met[ks[1::2]]]


def cases(tier):
    sub = ('wind', 'tskc')
    c = [Case('plain', align),
         Case('extra-days', align, before=2, after=3),
         Case('days-before', align, before=40),
         Case('days-after', align, after=40, days=1),
         Case('inside-year', align, start='2003-12-31', before=5, after=5,
              days=3),
         Case('leap', align, start='2004-02-28', days=3, before=1, after=2),
         Case('time-last', align, order=('lat', 'lon', 'time'), before=1),
         Case('lon-first', align, order=('lon', 'time', 'lat'),
              shape=(2, 3)),
         Case('transposed', align, order=('time', 'lon', 'lat'),
              shape=(3, 2)),
         Case('domain-transposed', align, domain_dims=('lon', 'lat'),
              shape=(2, 3)),
         Case('both-transposed', align, domain_dims=('lon', 'lat'),
              order=('lon', 'lat', 'time'), shape=(3, 2)),
         Case('reversed', align, post=c10.order(lat=[1, 0]), before=1),
         Case('shuffled', align, post=c10.order(lat=[2, 0, 1],
                                                lon=[1, 2, 0]),
              shape=(3, 3), names=sub + ('t_min', 't_max')),
         Case('larger', align, post=c10.both(
             c10.larger(), c10.order(lat=[3, 1, 0, 2])), after=1),
         Case('larger-transposed', align, post=c10.larger(),
              order=('lon', 'lat', 'time'), before=1),
         Case('renamed', align, rename={'pr': 'prec', 'ws': 'wind',
                                        'tasmin': 't_min', 'X': 'pet'}),
         Case('renamed-crossed', align, rename={
             't_min': 't_max', 't_max': 't_min', 'wind': 'tskc',
             'tskc': 'wind'}),
         Case('two-files', align, split=by_time(2), days=3, before=1,
              after=1),
         Case('files-by-variable', align, split=by_name, before=1),
         Case('data', align, fmt='data'),
         Case('data-extra', align, fmt='data', before=2, after=2,
              post=c10.both(c10.larger(), c10.order(lat=[1, 3, 0, 2]))),
         Case('data-transposed', align, fmt='data', after=1,
              order=('lon', 'lat', 'time')),
         Case('data-renamed', align, fmt='data', rename={
             't_min': 't_max', 't_max': 't_min', 'ws': 'wind'}, before=1),
         Case('units', align, dims=('hru',), shape=(4,),
              coords=dict(hru=[7, 3, 11, 5]),
              post=c10.order(hru=[2, 0, 3, 1])),
         Case('units-time-last', align, dims=('hru',), shape=(3,),
              coords=dict(hru=[7, 3, 11]), order=('hru', 'time'), before=2),
         Case('units-no-coordinate', align, dims=('hru',), shape=(3,),
              coords=dict(hru=False), after=1),
         Case('units-larger', align, dims=('hru',), shape=(3,),
              coords=dict(hru=[2, 4, 6]), post=c10.larger(), before=1),
         Case('sub-daily', align, names=('prec', 'wind', 'tskc'), before=1,
              after=2, time_step=360, days=3,
              order=('lat', 'lon', 'time')),
         Case('chunks', align, before=1, after=1, shape=(2, 3),
              chunks={'lat': 1, 'lon': 2},
              post=c10.order(lat=[1, 0], lon=[2, 1, 0]))]
    for n, s in enumerate(['00:00:01', '00:30:00', '06:00:00', '11:59:59',
                           '12:00:00', '12:00:01', '18:00:00', '23:00:00',
                           '23:59:00', '23:59:58', '23:59:59']):
        c.append(Case('stamp-%s' % s, align, stamp=s, before=2, after=2,
                      days=3, names=sub, shape=(1, 2)))
        c.append(Case('data-stamp-%s' % s, align, stamp=s, before=n % 3,
                      after=n % 2, days=2 + n % 2, names=sub, shape=(1, 1),
                      fmt='data'))
    if tier == 'thorough':
        import itertools
        for p in itertools.permutations(('time', 'lat', 'lon')):
            for q in (('lat', 'lon'), ('lon', 'lat')):
                c.append(Case('order-%s-%s' % (''.join(x[1] for x in p),
                                               q[0]),
                              align, order=p, domain_dims=q, shape=(2, 3),
                              before=1, after=1, budget=300))
        for h in range(24):
            c.append(Case('stamp-h%d' % h, align, before=3, after=3, days=5,
                          stamp='%02d:%02d:00' % (h, (h * 7) % 60),
                          budget=300))
        for b in range(8):
            for a in range(4):
                c.append(Case('extra-%d-%d' % (b, a), align, before=b,
                              after=a, days=1 + (a + b) % 5, names=sub,
                              budget=300))
    return c
