"""C25: runs over different periods of one record agree on the days they
share."""
import numpy as np
import pandas as pd

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'t_min': '-5..5 C', 't_max': '9..20 C', 'precipitation':
          '0..400 mm', 'shortwave': '0..500 W m-2', 'vapor pressure':
          '300..1200 Pa', 'cloud': '0..1', 'wind': '0..60 m/s',
          'days of the record': '4..8', 'periods': 'every first and last day '
          'named in the cases, of at least two days'}
OUTSIDE = ['quantities that are interpolated between days, on the first and '
           'the last day of a run (the last two days in UTC east of Greenwich)',
           'in UTC, the ends of the record itself', 'days estimated together by the dewpoint '
           'iteration, see C07']
RANGE = dict(t_min=(-5, 5), t_max=(9, 20), prec=(0, 400),
             shortwave=(0, 500), vapor_pressure=(300, 1200), tskc=(0, 1),
             wind=(0, 60), longwave=(150, 400))
BYDAY = ('prec', 'shortwave', 'wind', 'tskc', 'air_pressure')
SUB = ('temp', 'prec', 'shortwave', 'vapor_pressure', 'rel_humid',
       'spec_humid', 'longwave', 'tskc', 'wind')
DAY = ('t_min', 't_max', 't_day', 'prec', 'shortwave', 'wind', 'pet', 'tskc',
       'vapor_pressure', 'daylength')


def record(ctx, n, free, at):
    """A record: values by name and day; the days from -200 on exist."""
    S = {}
    fix = dict(t_min=1.0, t_max=12.5, prec=2.0, shortwave=140.0,
               vapor_pressure=580.0, tskc=.4, wind=3.0, longwave=290.0)

    def g(k, t, *i):
        q = (k, t) + i
        if q not in S:
            if k in free and t in at:
                S[q] = ctx.real('%s_%d_%s' % (
                    k, t, '_'.join(map(str, i))), *RANGE[k])
            else:
                amp = fix[k] / 20
                S[q] = fix[k] + amp * ((t * 7 + sum(i)) % 5)
        return S[q]
    return g


def take(ctx, g, n, a, b, start, names, shape, tag, inside, ts, drop, **kw):
    """Outputs of the run over the days a..b of the record."""
    first = 0 if inside else a
    last = n - 1 if inside else b
    t0 = pd.Timestamp(start)
    f = e2e.full(**{k: (lambda t, *i, k=k: g(k, t + first, *i))
                    for k in RANGE if k not in drop})
    for k in drop:
        f.pop(k, None)
    w = e2e.World(
        ctx, days=b - a + 1, start=t0 + pd.Timedelta(days=a), shape=shape,
        time=pd.date_range(t0 + pd.Timedelta(days=first),
                           periods=last - first + 1),
        forcing=f, objects=True, tag=tag,
        coords=kw.pop('coords', None),
        state={k: (lambda t, *i, k=k: g(k, t + a - 90, *i))
               for k in ('t_min', 't_max', 'prec')})
    out = w.run(time_step=ts, out_vars={k: {'out_name': k} for k in names},
                **kw)
    r = {k: [] for k in names}
    for f in sorted(out):
        for k in names:
            r[k] += list(out[f]['vars'][k]['data'])
    return r


def go(ctx, n=5, spans=((1, 3),), free=('wind',), at=(1, 2, 3), ts=360,
       start='2001-03-01', names=None, shape=(1, 1), inside=True, drop=(),
       lw=False, edge=(1, 1), **kw):
    if not lw:
        drop = tuple(drop) + ('longwave',)
    names = list(names or (DAY if ts == 1440 else SUB))
    g = record(ctx, n, free, at)
    whole = take(ctx, g, n, 0, n - 1, start, names, shape, 'whole', inside,
                 ts, drop, **kw)
    per = 1440 // ts
    for a, b in spans:
        part = take(ctx, g, n, a, b, start, names, shape, 'p%d_%d' % (a, b),
                    inside, ts, drop, **kw)
        for k in names:
            ctx.prove(len(part[k]) == (b - a + 1) * per, 'steps of the part')
            lo, hi = a, b
            if ts < 1440 and (k not in BYDAY or kw.get('utc_offset')) or (
                    lw and k == 'longwave'):
                u = kw.get('utc_offset')
                lo = a + edge[0] if a > 0 or u else a
                hi = b - edge[1] if b < n - 1 or u else b
            for d in range(lo, hi + 1):
                x = whole[k][d * per:(d + 1) * per]
                y = part[k][(d - a) * per:(d - a + 1) * per]
                for i in np.ndindex(*shape):
                    ctx.prove_close([v[i] for v in y], [v[i] for v in x],
                                    '%s as in the longer run' % k)
        ctx.observe('first', part[names[0]][0].ravel()[0])


def cases(tier):
    c = [Case('wind', go, free=('wind', 'tskc', 'prec', 'shortwave')),
         Case('temperature', go, free=('t_min',), at=(2,), budget=120),
         Case('warm', go, free=('t_max',), at=(2,), budget=120),
         Case('vapor', go, free=('vapor_pressure', 'tskc'), at=(1, 2, 3)),
         Case('start', go, spans=((0, 2), (0, 1)), free=('t_min', 'wind'),
              at=(0,), budget=120),
         Case('end', go, spans=((2, 4), (3, 4)), free=('t_max', 'wind'),
              at=(4,), budget=120),
         Case('daily', go, ts=1440, spans=((1, 3), (0, 1), (4, 4), (2, 2)),
              free=('wind', 'prec', 'shortwave', 'tskc')),
         Case('daily-estimated', go, ts=1440, spans=((1, 3), (2, 4)),
              drop=('t_day', 'pet', 'tskc', 'tfmax', 'vapor_pressure',
                    'tdew'), free=('prec', 'shortwave'), at=(0, 2, 3),
              names=('t_day', 'pet', 'tskc', 'vapor_pressure', 'shortwave')),
         Case('new-year', go, start='2003-12-29', spans=((2, 4), (1, 3)),
              free=('shortwave', 'wind')),
         Case('new-year-leap', go, start='2004-12-29', ts=180,
              spans=((2, 4), (1, 3)), free=('shortwave', 'wind')),
         Case('after-leap', go, start='2004-12-29', ts=1440, n=7,
              spans=((3, 5), (2, 6), (4, 4)), free=('shortwave', 'wind'),
              coords=dict(lat=[60.0])),
         Case('after-year', go, start='2003-12-29', ts=1440, n=7,
              spans=((3, 5), (2, 6), (4, 4)), free=('shortwave', 'wind'),
              coords=dict(lat=[-60.0])),
         Case('after-leap-steps', go, start='2004-12-29', n=7, ts=60,
              spans=((3, 5), (2, 6)), free=('shortwave', 'wind'),
              coords=dict(lat=[60.0])),
         Case('after-leap-day', go, start='2004-02-27', ts=1440, n=5,
              spans=((2, 4), (3, 4)), free=('shortwave', 'wind'),
              coords=dict(lat=[60.0])),
         Case('leap', go, start='2004-02-27', spans=((1, 3), (2, 4)),
              free=('shortwave', 'wind')),
         Case('cut', go, inside=False, spans=((1, 3), (2, 4)),
              free=('shortwave', 'prec', 'wind')),
         Case('utc-zero', go, utc_offset=True, coords=dict(lon=[0.0]),
              free=('shortwave', 'wind')),
         Case('utc-east', go, utc_offset=True, coords=dict(lon=[97.3]), n=6,
              spans=((1, 4), (2, 5)), edge=(1, 2),
              free=('shortwave', 'wind', 'prec')),
         Case('utc-west', go, utc_offset=True, coords=dict(lon=[-120.0]),
              free=('tskc', 'wind', 'prec'), ts=60),
         Case('estimated', go, method='mtclim', spans=((1, 3), (2, 4)),
              drop=('t_day', 'pet', 'tskc', 'tfmax', 'vapor_pressure',
                    'tdew', 'shortwave'), free=('wind',)),
         Case('estimated-daily', go, method='mtclim', ts=1440,
              spans=((1, 3), (2, 4), (0, 0)),
              drop=('t_day', 'pet', 'tskc', 'tfmax', 'vapor_pressure',
                    'tdew', 'shortwave'), free=('wind',)),
         Case('polar', go, start='2001-01-20', ts=60, spans=((1, 3), (2, 4)),
              coords=dict(lat=[67.2]), free=('shortwave', 'wind')),
         Case('cells', go, shape=(1, 2), free=('wind', 'prec'), at=(2,)),
         Case('ending', go, period_ending=True, ts=180, free=('wind',)),
         Case('files', go, out_freq='2D', n=6, spans=((1, 4),),
              free=('wind', 'prec')),
         Case('longwave', go, lw=True, free=('longwave',))]
    if tier == 'thorough':
        for st in ('2001-03-01', '2003-12-28', '2004-02-25', '1999-12-28'):
            for ts in (60, 180, 360, 1440):
                c.append(Case('all-%s-%d' % (st, ts), go, n=8, start=st,
                              ts=ts, spans=[(a, b) for a in range(8)
                                            for b in range(a, 8)],
                              free=('wind', 'prec', 'shortwave'),
                              at=range(8), budget=600))
        for la in (-70.0, -35.0, 0.5, 66.0, 80.0):
            c.append(Case('lat%g' % la, go, n=6, spans=((1, 4), (2, 5)),
                          coords=dict(lat=[la]), budget=600,
                          free=('t_min', 'shortwave'), at=(2,)))
    return c
