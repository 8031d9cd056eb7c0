"""C28: the output of a coarser time step aggregates that of a finer one."""
import numpy as np

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'t_min': '-5..5 C', 't_max': '9..20 C', 'precipitation':
          '0..400 mm', 'shortwave': '0..900 W m-2', 'cloud': '0..1',
          'wind': '0..60 m/s', 'days': '1..3', 'pairs of steps': 'divisors of '
          'a day from 5 minutes to six hours and a day, listed by case',
          'storms': 'windows of duration and peak listed by case'}
OUTSIDE = ['temperature, humidity, pressure and longwave, which are values at '
           'a time', 'in UTC, daily output']
RANGE = dict(t_min=(-5, 5), t_max=(9, 20), prec=(0, 400),
             shortwave=(0, 900), tskc=(0, 1), wind=(0, 60))
SUM, MEAN = ('prec',), ('shortwave', 'wind', 'tskc')


def go(ctx, steps=(60, 360), free=('prec', 'shortwave', 'wind', 'tskc'),
       drop=(), days=2, shape=(1, 1), storm=None, start='2001-03-01',
       coords=None, units=None, rate=(), mtd='passthrough', **kw):
    S = {}

    def g(k):
        def f(t, *i):
            q = (k, t) + i
            if q not in S:
                S[q] = ctx.real('%s_%s' % (k, '_'.join(map(str, q[1:]))),
                                *RANGE[k])
            return S[q]
        return f
    more = {}
    if storm:
        kw['prec_type'] = kw.get('prec_type', 'triangle')
        for name, (lo, hi) in storm.items():
            v = ctx.real(name, lo, hi)
            more[name] = (('month',), np.full(
                (12,) + shape, v, dtype=object if ctx.sym else float))
    names = [k for k in SUM + MEAN]
    res = []
    for ts in steps:
        f = e2e.full(**{k: g(k) for k in free})
        for k in drop:
            f.pop(k, None)
        f.setdefault('prec', 1.5)
        w = e2e.World(ctx, days=days, shape=shape, start=start, forcing=f,
                      objects=True, tag='s%d' % ts, coords=coords,
                      domain_extra=more)
        out = w.run(time_step=ts, method=mtd, out_vars={
            k: dict({'out_name': k}, **({'units': units[k]} if units and
                                        k in units else {}))
            for k in names}, **kw)
        r = {k: [] for k in names}
        for n in sorted(out):
            for k in names:
                r[k] += list(out[n]['vars'][k]['data'])
        for k in names:
            ctx.prove(len(r[k]) == days * 1440 // ts, 'number of steps')
        res.append(r)
    fine, f = res[0], steps[0]
    for r, ts in zip(res[1:], steps[1:]):
        m = ts // f
        for k in names:
            for i in np.ndindex(*shape):
                x = [v[i] for v in fine[k]]
                y = [v[i] for v in r[k]]
                want = [sum(x[j:j + m]) for j in range(0, len(x), m)]
                if k not in SUM or k in rate:
                    want = [v / m for v in want]
                ctx.prove_close(y, want, '%s of a coarse step' % k)
    ctx.observe('fine', [v.ravel()[0] for v in fine['prec'][:2]])


EST = ('t_day', 'tskc', 'pet', 'tfmax', 'vapor_pressure', 'tdew')


def cases(tier):
    c = [Case('hours', go, steps=(60, 120, 180, 240, 360, 1440)),
         Case('halves', go, steps=(30, 60, 90, 180), days=1),
         Case('quarters', go, steps=(15, 30, 60), days=1),
         Case('thirds', go, steps=(20, 40, 60, 120), days=1),
         Case('fives', go, steps=(5, 10, 15, 45), days=1,
              free=('prec', 'wind')),
         Case('utc-east', go, steps=(30, 60, 180), utc_offset=True,
              coords=dict(lon=[97.3])),
         Case('utc-west', go, steps=(60, 120, 360), utc_offset=True,
              coords=dict(lon=[-120.0])),
         Case('utc-far', go, steps=(60, 180), utc_offset=True,
              coords=dict(lon=[200.1]), days=3),
         Case('ending', go, steps=(60, 180, 360), period_ending=True),
         Case('storm', go, steps=(60, 180, 360, 1440), free=('prec',),
              storm=dict(dur=(300.2, 300.8), t_pk=(600.3, 600.4))),
         Case('storm-cut', go, steps=(30, 60, 240), free=('prec',),
              storm=dict(dur=(500.2, 500.8), t_pk=(100.3, 100.4))),
         Case('storm-utc', go, steps=(60, 180), free=('prec',),
              utc_offset=True, coords=dict(lon=[-75.0]),
              storm=dict(dur=(300.2, 300.8), t_pk=(600.3, 600.4))),
         Case('storm-mix', go, steps=(60, 180, 1440), free=('prec', 't_min'),
              prec_type='mix',
              storm=dict(dur=(300.2, 300.8), t_pk=(600.3, 600.4))),
         Case('low-sun', go, steps=(20, 60, 180, 1440), start='2001-12-20',
              coords=dict(lat=[66.0]), free=('shortwave',)),
         Case('no-sun', go, steps=(60, 180, 1440), start='2001-01-20',
              coords=dict(lat=[67.5]), free=('wind',)),
         Case('polar-day', go, steps=(60, 180, 1440), start='2001-06-20',
              coords=dict(lat=[75.0]), free=('shortwave',)),
         Case('south', go, steps=(60, 180, 1440), start='2004-02-28',
              coords=dict(lat=[-33.3]), free=('shortwave', 'tskc'), days=3),
         Case('daylight', go, steps=(60, 360, 1440), free=('shortwave',),
              sw_averaging='daylight'),
         Case('estimated', go, steps=(60, 360, 1440), mtd='mtclim',
              drop=EST + ('shortwave',), free=('wind', )),
         Case('estimated-cloud', go, steps=(60, 360, 1440),
              drop=('tskc', 'tfmax'), free=('wind', 'shortwave')),
         Case('rate', go, steps=(60, 180, 1440), units=dict(prec='mm h-1'),
              rate=('prec',)),
         Case('rate-seconds', go, steps=(60, 180, 1440),
              units=dict(prec='mm s-1', tskc='%'), rate=('prec',)),
         Case('files', go, steps=(60, 180), out_freq='D'),
         Case('cells', go, steps=(180, 360, 1440), shape=(2, 2), days=1,
              chunks={'lat': 1})]
    if tier == 'thorough':
        for f in (2, 3, 4, 5, 6, 8, 10, 12, 15, 20, 30, 60, 90, 120, 180):
            c.append(Case('all-%d' % f, go, budget=600, days=1, steps=[f] + [
                g for g in list(range(f + 1, 361)) + [1440]
                if 1440 % g == 0 and g % f == 0]))
        for lon in range(-180, 181, 30):
            c.append(Case('lon%d' % lon, go, steps=(15, 60, 180), days=2,
                          utc_offset=True, coords=dict(lon=[lon + .3]),
                          budget=300))
        for lat in (-80.0, -60.0, -5.0, 20.0, 50.0, 70.0, 85.0):
            for st in ('2001-01-05', '2001-03-20', '2001-06-21',
                       '2004-10-30'):
                c.append(Case('lat%g-%s' % (lat, st), go, budget=300, start=st,
                              steps=(30, 60, 180, 1440),
                              free=('shortwave',), coords=dict(lat=[lat])))
    return c
