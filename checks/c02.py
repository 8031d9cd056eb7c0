"""C02: sub-daily shortwave carries exactly the daily energy."""
import numpy as np
import pandas as pd

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = ['the shares of potential radiation of a day sum to one (C08)']
BOUNDS = {'daily shortwave': '0..1200 W m-2', 'day length': '0..86400 s',
          'days': '1..3 per case',
          'potential radiation': 'one free share per half hour or hour of the '
                                 'day'}
OUTSIDE = ['floating-point rounding', 'missing shortwave']


def free_geom(ctx, days, blocks, per):
    """Geometry whose rows for the given days have a free share per block of
    `per` bins, positive, summing to one."""
    sg = cm.geom(rises={d: (300, 1100) for d in range(366)})
    tiny = sg['tiny_rad_fract']
    if ctx.sym:
        tiny = tiny.astype(object)
    shares = {}
    for d in days:
        row = np.zeros(2880, dtype=object if ctx.sym else float)
        fs = []
        for b in blocks[:-1]:
            fs.append((b, ctx.real('f%d_%d' % (d, b), 1e-3, 0.9)))
        last = 1.0 - ctx.sum([f for _, f in fs])
        ctx.assume(last > 0)
        fs.append((blocks[-1], last))
        for b, f in fs:
            for k in range(b * per, (b + 1) * per):
                row[k] = f / per
        tiny[d] = row
        shares[d] = dict(fs)
    if ctx.sym:
        from symx.nparr import wrap
        tiny = wrap(tiny)
    sg['tiny_rad_fract'] = tiny
    return sg, shares


def local(ctx, ts, n, start, method='mtclim', avg=None, pend=False,
          half=True):
    from metsim.disaggregate import disaggregate
    idx = pd.date_range(start, periods=n)
    days = [int(d) - 1 for d in idx.dayofyear]
    per = 60 if half else 120
    blocks = list(range(10, 38, 3)) if half else list(range(7, 18, 2))
    sg, shares = free_geom(ctx, days, blocks, per)
    sw = [ctx.real('sw%d' % i, 0, 1200) for i in range(n)]
    dl = [ctx.real('dl%d' % i, 0, 86400) for i in range(n)]
    df = cm.daily(ctx, n, start=start, shortwave=sw, daylength=dl)
    kw = dict(time_step=ts, method=method, period_ending=pend)
    if avg is not None:
        kw['sw_averaging'] = avg
    out = disaggregate(df, cm.params(**kw), sg)
    res = cm.col_of(out, 'shortwave')
    spd = 1440 // ts
    ctx.observe('sw', res)
    ctx.prove(len(res) == n * spd, 'number of steps')
    whole = method == 'passthrough' and avg != 'daylight'
    mean = [sw[d] if whole else sw[d] * dl[d] / 86400.0 for d in range(n)]
    ctx.prove_le([-x for x in res], 0.0, 'shortwave is never negative')
    ctx.prove_close([ctx.sum(res[d * spd:(d + 1) * spd]) / spd
                     for d in range(n)], mean,
                    'the mean of the day carries the daily energy')
    for d in range(n):
        sh = shares[days[d]]
        for k in range(spd):
            part = 0.0
            bins = ts * 2
            for b, f in sh.items():
                a0, a1 = max(b * per, k * bins), min((b + 1) * per,
                                                     (k + 1) * bins)
                if a1 > a0:
                    part = part + f * ((a1 - a0) / per)
            x = res[d * spd + k]
            if isinstance(part, float) and part == 0.0:
                ctx.prove(ctx.close(x, 0.0), 'no shortwave without sun')
            else:
                ctx.prove(ctx.close(x, mean[d] * part * spd),
                          'shortwave follows the potential radiation')


def run_mean(ctx, ts, avg=None):
    """Whole runs at several latitudes: daily means equal the supplied or the
    daily output."""
    S = {}

    def sw(t, i, j):
        return S.setdefault((t, j), ctx.real('S%d_%d' % (t, j), 0, 900))
    lats = [12.0]
    w = e2e.World(ctx, days=2, start='2004-02-29', shape=(1, 2),
                  coords={'lat': lats}, forcing=e2e.full(shortwave=sw))
    kw = {} if avg is None else {'sw_averaging': avg}
    ov = {'shortwave': {'out_name': 'sw'}}
    (o,) = w.run(time_step=ts, out_vars=ov, **kw).values()
    v = o['vars']['sw']['data']
    spd = 1440 // ts
    for j in range(2):
        for t in range(2):
            m = ctx.sum(list(v[t * spd:(t + 1) * spd, 0, j])) / spd
            if avg == 'daylight':
                x = daylen(12.0, 60 + t)
                want = S[t, j] * x / 86400.0
            else:
                want = S[t, j]
            ctx.prove(ctx.close(m, want, rtol=1e-5),
                      'daily mean of the output is the supplied energy')


def daylen(lat, doy):
    """Day length [s] on a flat horizon (independent of the code)."""
    import math
    la = lat * 0.01745329
    decl = -0.4092797 * math.cos((doy - 1 + 11.25) * 0.017214)
    c = -math.sin(la) * math.sin(decl) / (math.cos(la) * math.cos(decl))
    return min(2 * math.acos(min(1, max(-1, c))) * 13750.9871, 86400)


def run_consistent(ctx, ts, t0=3.0, tx=14.0):
    """Full estimation: sub-daily and daily output carry the same energy."""
    T = [ctx.real('tmin%d' % i, t0, t0 + 0.25) for i in range(2)]
    fo = dict(t_min=lambda t, i, j: T[t], t_max=tx, prec=0.0)
    ov = {'shortwave': {'out_name': 'sw'}}
    res = []
    for k, step in enumerate((ts, 1440)):
        w = e2e.World(ctx, days=2, forcing=dict(fo), tag='w%d' % k)
        (o,) = w.run(time_step=step, out_vars=ov, method='mtclim',
                     tdew_tol=1e9).values()
        res.append(list(o['vars']['sw']['data'][:, 0, 0]))
    spd = 1440 // ts
    ctx.observe('daily', res[1])
    ctx.prove_close([ctx.sum(res[0][d * spd:(d + 1) * spd]) / spd
                     for d in range(2)], res[1],
                    'sub-daily and daily output carry the same energy',
                    rtol=1e-5)


def cases(tier):
    c = [Case('mtclim-60', local, ts=60, n=2, start='2001-06-01'),
         Case('mtclim-30-leap', local, ts=30, n=3, start='2004-02-28'),
         Case('mtclim-180-pe', local, ts=180, n=2, start='2001-10-05',
              pend=True, half=False),
         Case('mtclim-newyear', local, ts=60, n=3, start='2004-12-30'),
         Case('mtclim-newyear2', local, ts=60, n=2, start='2001-12-31'),
         Case('pass-60', local, ts=60, n=2, start='2001-06-01',
              method='passthrough'),
         Case('pass-360', local, ts=360, n=3, start='2000-12-30',
              method='passthrough'),
         Case('pass-daylight', local, ts=60, n=2, start='2001-06-01',
              method='passthrough', avg='daylight'),
         Case('pass-other', local, ts=180, n=2, start='2001-06-01',
              method='passthrough', avg='24h'),
         Case('mtclim-other', local, ts=180, n=2, start='2001-06-01',
              avg='24h'),
         Case('run-other', run_mean, ts=360, avg='24h'),
         Case('run-1440-other', run_mean, ts=1440, avg='24h'),
         Case('mtclim-5', local, ts=5, n=1, start='2001-03-01',
              half=False),
         Case('run-360', run_mean, ts=360),
         Case('run-60-daylight', run_mean, ts=60, avg='daylight'),
         Case('run-1440', run_mean, ts=1440),
         Case('run-1440-daylight', run_mean, ts=1440, avg='daylight'),
         Case('daily-and-subdaily', run_consistent, ts=180),
         Case('daily-and-subdaily-cold', run_consistent, ts=360, t0=-9.0,
              tx=-1.5)]
    if tier == 'thorough':
        for ts in (1, 2, 3, 10, 15, 20, 45, 90, 120, 240, 360):
            for m, a in (('mtclim', None), ('passthrough', None),
                         ('passthrough', 'daylight')):
                c.append(Case('%s-%s-t%d' % (m, a, ts), local, ts=ts, n=2,
                              start='2003-08-14', method=m, avg=a,
                              budget=300))
    return c
