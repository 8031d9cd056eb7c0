"""C03: UTC output is local output shifted by longitude."""
import numpy as np

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = ['PCHIP (scipy) depends on the knots only relative to the query']
BOUNDS = {'longitude': 'windows of 0.12 degrees (or 0.01 at one minute) '
                       'within which the shift is a whole number of minutes',
          'days': '2..3 per case', 'time step': '1, 5, 30, 60, 180, 360 min',
          'daily values': 'prec 0..500, temperature -40..40, shortwave '
                          '0..1200, wind 0..40, cloud 0..1'}
OUTSIDE = ['steps whose local time lies before the first or after the last '
           'day of the run (they are filled by wrapping around)',
           'the turn of the year, where day-of-year tables wrap']

VARS = ('temp', 'prec', 'shortwave', 'wind', 'tskc')


def inputs(ctx, n, warm=True):
    d = {}
    d['prec'] = [ctx.real('p%d' % i, 0, 500) for i in range(n)]
    d['shortwave'] = [ctx.real('s%d' % i, 0, 1200) for i in range(n)]
    d['wind'] = [ctx.real('w%d' % i, 0, 40) for i in range(n)]
    d['tskc'] = [ctx.real('c%d' % i, 0, 1) for i in range(n)]
    if not warm:
        return d
    d['t_min'] = [ctx.real('a%d' % i, -30, 10) for i in range(n)]
    d['t_max'] = [x + ctx.real('r%d' % i, 1, 20) for i, x in
                  enumerate(d['t_min'])]
    return d


def one(ctx, n, ts, lon, utc, d, start, **kw):
    from metsim.disaggregate import disaggregate
    sg = cm.geom(rises={k: (300 + k % 50, 1100 - k % 40)
                        for k in range(366)})
    df = cm.daily(ctx, n, start=start, sg=sg, **d)
    if kw.get('prec_type', 'uniform') != 'uniform':
        df['t_pk'] = [600.0] * n
        df['dur'] = [240.0] * n
    out = disaggregate(df, cm.params(time_step=ts, lon=lon, utc_offset=utc,
                                     **kw), sg)
    return {v: cm.col_of(out, v) for v in VARS}


def shift(ctx, lo, hi, minutes, ts, n=3, start='2001-05-10', **kw):
    """lon anywhere in [lo, hi]: output is the local one `minutes` later."""
    lon = ctx.real('lon', lo, hi)
    d = inputs(ctx, n, ts > 5)
    u = one(ctx, n, ts, lon, True, d, start, **kw)
    l = one(ctx, n, ts, lon, False, d, start, **kw)
    k = minutes // ts
    N = n * 1440 // ts
    for v in VARS:
        ctx.observe(v, u[v][:60])
        ctx.prove(len(u[v]) == N and len(l[v]) == N, 'number of steps')
        i0, i1 = max(0, -k), min(N, N - k)
        ctx.prove_close(u[v][i0:i1], l[v][i0 + k:i1 + k],
                        v + ' in UTC is the local value at that time')


def minutes_sum(ctx, lo, hi, minutes, ts, n=2, start='2001-05-10'):
    """A shift that is not a multiple of the step: compare with the local
    minutes."""
    lon = ctx.real('lon', lo, hi)
    d = inputs(ctx, n, False)
    u = one(ctx, n, ts, lon, True, d, start)
    l = one(ctx, n, 1, lon, False, d, start)
    N = n * 1440
    for v in VARS:
        if v == 'temp':
            continue
        want, got = [], []
        for i in range(N // ts):
            a = i * ts + minutes
            if a < 0 or a + ts > N:
                continue
            s = ctx.sum(l[v][a:a + ts])
            want.append(s if v == 'prec' else s / ts)
            got.append(u[v][i])
        ctx.prove_close(got, want, v + ' in UTC collects the local minutes')


def whole_turns(ctx, lo, hi, turn, ts=60, n=2):
    lon = ctx.real('lon', lo, hi)
    d = inputs(ctx, n)
    a = one(ctx, n, ts, lon, True, d, '2001-05-10')
    b = one(ctx, n, ts, lon + 360 * turn, True, d, '2001-05-10')
    for v in VARS:
        ctx.prove_close(a[v], b[v], v + ': whole turns of longitude do not '
                                    'matter')


def zero(ctx, ts=60, n=2):
    d = inputs(ctx, n)
    a = one(ctx, n, ts, 0.0, True, d, '2001-05-10')
    b = one(ctx, n, ts, 0.0, False, d, '2001-05-10')
    for v in VARS:
        ctx.prove_close(a[v], b[v], v + ': UTC is local time at longitude 0')


def run(ctx, lons, ts, **kw):
    """Whole runs over cells of different longitudes."""
    n = 3
    S = {}

    def f(tag, lo, hi):
        return lambda t, i, j: S.setdefault(
            (tag, t, j), ctx.real('%s%d_%d' % (tag, t, j), lo, hi))
    ov = {'temp': 'temp', 'prec': 'prec', 'shortwave': 'shortwave',
          'wind': 'wind', 'tskc': 'tskc'}
    ov = {k: {'out_name': v} for k, v in ov.items()}
    res = []
    for utc in (True, False):
        w = e2e.World(ctx, days=n, start='2001-05-10', shape=(1, len(lons)),
                      coords={'lon': lons},
                      forcing=e2e.full(t_min=f('a', 0, 1), t_max=f('b', 8, 14),
                                       prec=f('p', 0, 50),
                                       shortwave=f('s', 0, 500),
                                       wind=f('w', 0, 20),
                                       tskc=f('c', 0, 1)), tag='u%d' % utc)
        (o,) = w.run(time_step=ts, out_vars=ov, utc_offset=utc, **kw).values()
        res.append(o['vars'])
    N = n * 1440 // ts
    for j, lon in enumerate(lons):
        m = int(round((lon + 180) % 360 - 180) * 4)
        k = m // ts
        for v in VARS:
            a = list(res[0][v]['data'][:, 0, j])
            b = list(res[1][v]['data'][:, 0, j])
            if j == 0:
                ctx.observe(v, a)
            i0, i1 = max(0, -k), min(N, N - k)
            ctx.prove_close(a[i0:i1], b[i0 + k:i1 + k],
                            v + ' in the file is the local value at that '
                                'time', rtol=1e-5, atol=1e-6)


def cases(tier):
    c = [Case('east-60', shift, lo=30, hi=30.12, minutes=120, ts=60),
         Case('west-60', shift, lo=-120.12, hi=-120, minutes=-480, ts=60),
         Case('over180', shift, lo=239.9, hi=240, minutes=-480, ts=60, n=2),
         Case('east-360', shift, lo=90, hi=90.12, minutes=360, ts=360),
         Case('west-30', shift, lo=-7.62, hi=-7.5, minutes=-30, ts=30, n=2),
         Case('east-5', shift, lo=101.25, hi=101.37, minutes=405, ts=5, n=1),
         Case('minute', shift, lo=37.30, hi=37.31, minutes=149, ts=1, n=1),
         Case('triangle', shift, lo=60, hi=60.12, minutes=240, ts=60, n=2,
              prec_type='triangle'),
         Case('mix', shift, lo=-75.12, hi=-75, minutes=-300, ts=60, n=2,
              prec_type='mix'),
         Case('between', minutes_sum, lo=37.30, hi=37.31, minutes=149, ts=60),
         Case('between-w', minutes_sum, lo=-100.31, hi=-100.3, minutes=-401,
              ts=180),
         Case('turn', whole_turns, lo=20, hi=20.2, turn=1),
         Case('turn-w', whole_turns, lo=-150.2, hi=-150, turn=1),
         Case('turn-minus', whole_turns, lo=100, hi=100.2, turn=-1),
         Case('zero', zero),
         Case('run', run, lons=[45.0, -90.0, 225.0], ts=180),
         Case('run-60', run, lons=[-120.0, 15.0], ts=60)]
    if tier == 'thorough':
        for h in range(-11, 12):
            lo = 15 * h
            a, b = (lo, lo + .12) if h >= 0 else (lo - .12, lo)
            c.append(Case('hour%d' % h, shift, lo=a, hi=b, minutes=60 * h,
                          ts=60, n=2, budget=300))
        for k in range(1, 60, 7):
            lo = 2.5 * k + 0.05
            c.append(Case('odd%d' % k, minutes_sum, lo=lo, hi=lo + .01,
                          minutes=int(lo * 4), ts=60, budget=300))
            c.append(Case('oddw%d' % k, minutes_sum, lo=-lo - .01, hi=-lo,
                          minutes=-int(lo * 4), ts=120, budget=300))
    return c
