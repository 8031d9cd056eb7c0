"""C04: temperature follows the daily extremes at their times."""
import numpy as np

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = ['PCHIP (scipy) keeps between its knots and is monotone there']
BOUNDS = {'t_min': '-40..25 C', 'daily range': '0..25 K',
          'days': '1..4 per case',
          'sunrise and sunset': 'free on a two-hour grid, and fixed '
                                'half-hour positions per day',
          'fraction of daylight': '0.05..0.95 (free in windows)',
          'time step': '30, 60, 120, 180, 360 min'}
OUTSIDE = ['sunrise in the first slot of the day (taken for a day '
           'without sunrise)']


def temps(ctx, n, wide=True):
    lo = [ctx.real('a%d' % i, -40, 25) for i in range(n)]
    hi = [x + ctx.real('r%d' % i, 0, 25) for i, x in enumerate(lo)]
    return lo, hi


def hull(ctx, x, ys, label):
    lo, hi = ys[0], ys[0]
    for y in ys[1:]:
        lo, hi = ctx.min(lo, y), ctx.max(hi, y)
    ctx.prove(ctx.le(lo, x), label)
    ctx.prove(ctx.le(x, hi), label)


def judge(ctx, T, ts, days, lo, hi, before=None, after=None, exact=True):
    """days: (time of minimum, time of maximum) in minutes of each day."""
    n = len(days)
    ctx.prove(len(T) == n * 1440 // ts, 'number of steps')
    knots = []
    b = before or (lo[0], hi[0])
    a = after or (lo[-1], hi[-1])
    knots.append((days[0][0] - 1440, b[0], None))
    knots.append((days[0][1] - 1440, b[1], None))
    for d, (r, m) in enumerate(days):
        knots.append((d * 1440 + r, lo[d], 'minimum at sunrise'))
        knots.append((d * 1440 + m, hi[d], 'maximum at its time'))
    knots.append((n * 1440 + days[-1][0], a[0], None))
    knots.append((n * 1440 + days[-1][1], a[1], None))
    prev = None
    for i, x in enumerate(T):
        t = ts * (i + 1)          # a step carries the value at its end
        for (t0, y0, l0), (t1, y1, l1) in zip(knots, knots[1:]):
            if not t0 <= t <= t1:
                continue
            if t == t0 and l0:
                ctx.prove(ctx.close(x, y0), l0)
                break
            if t == t1 and l1:
                ctx.prove(ctx.close(x, y1), l1)
                break
            hull(ctx, x, (y0, y1), 'between the neighbouring extremes')
            if prev is not None and prev[0] == (t0, t1) and y1 is not None:
                up = [ctx.implies(y0 <= y1, ctx.le(prev[1], x)),
                      ctx.implies(y1 <= y0, ctx.le(x, prev[1]))]
                for c in up:
                    ctx.prove(c, 'monotone between the extremes')
            prev = ((t0, t1), x)
            break


def fixed(ctx, ts, n, frac, start='2001-06-10', begin=False, end=False,
          rises=None, **kw):
    from metsim.disaggregate import disaggregate
    import pandas as pd
    idx = pd.date_range(start, periods=n)
    pat = rises or [(300.5, 1140.5), (360.5, 1080.5), (240.5, 1200.5)]
    tab = {int(d) - 1: pat[i % len(pat)]
           for i, d in enumerate(idx.dayofyear)}
    sg = cm.geom(rises={d: tab.get(d, (480.5, 960.5)) for d in range(366)})
    lo, hi = temps(ctx, n)
    df = cm.daily(ctx, n, start=start, sg=sg, t_min=lo, t_max=hi)
    b = [ctx.real('b0', -40, 25), ctx.real('b1', -40, 40)] if begin else None
    e = [ctx.real('e0', -40, 25), ctx.real('e1', -40, 40)] if end else None
    out = disaggregate(df, cm.params(time_step=ts,
                                     tmax_daylength_fraction=frac, **kw),
                       sg, b, e)
    T = cm.col_of(out, 'temp')
    ctx.observe('T', T)
    days = []
    for d in idx.dayofyear:
        r, s = tab[int(d) - 1]
        r, s = r - 0.5, s - 0.5
        days.append((r, r + frac * (s - r)))
    judge(ctx, T, ts, days, lo, hi, b, e)


def fraction(ctx, lo_f, hi_f, ts=360, n=2):
    """A free fraction: every step lies between the extremes around it."""
    from metsim.disaggregate import disaggregate
    sg = cm.geom(360.5, 1080.5)
    lo, hi = temps(ctx, n)
    f = ctx.real('f', lo_f, hi_f)
    df = cm.daily(ctx, n, sg=sg, t_min=lo, t_max=hi)
    out = disaggregate(df, cm.params(time_step=ts, tmax_daylength_fraction=f),
                       sg)
    T = cm.col_of(out, 'temp')
    ctx.observe('T', T)
    ctx.prove(len(T) == n * 1440 // ts, 'number of steps')
    m = 360 + f * 720
    for i, x in enumerate(T):
        t = ts * (i + 1)
        d, q = divmod(t, 1440)
        # extremes before and after this time
        L = [lo[0]] + lo + [lo[-1]]
        H = [hi[0]] + hi + [hi[-1]]
        if q < 360:
            hull(ctx, x, (H[d], L[d + 1]), 'between the neighbouring extremes')
            continue
        if q == 360:
            ctx.prove(ctx.close(x, L[d + 1]), 'minimum at sunrise')
            continue
        up = q <= m
        a, b = ctx.min(L[d + 1], H[d + 1]), ctx.max(L[d + 1], H[d + 1])
        c, e = ctx.min(L[d + 2], H[d + 1]), ctx.max(L[d + 2], H[d + 1])
        ctx.prove(ctx.implies(up, ctx.band(ctx.le(a, x), ctx.le(x, b))),
                  'between the neighbouring extremes')
        ctx.prove(ctx.implies(ctx.bnot(up), ctx.band(ctx.le(c, x),
                                                     ctx.le(x, e))),
                  'between the neighbouring extremes')
        ctx.prove(ctx.implies(ctx.bnot(q != m), ctx.close(x, H[d + 1])),
                  'maximum at its time')


def window(ctx, frac=0.5, ts=240, n=2, lo_r=2, hi_s=11):
    """Sunrise and sunset anywhere on a coarse grid of radiation steps."""
    import metsim.constants as cnst
    from metsim.disaggregate import disaggregate
    old = cnst.SW_RAD_DT
    try:
        cnst.SW_RAD_DT = 7200.0
        r = int(ctx.int('rise', lo_r, 7))
        s = int(ctx.int('set%d' % r, r + 2, hi_s))
        tiny = np.zeros((366, 12))
        tiny[:, r:s] = 0.1
        sg = dict(tiny_rad_fract=tiny, daylength=np.full(366, 40000.0),
                  potrad=np.full(366, 400.0), tt_max0=np.full(366, 0.6))
        lo = [ctx.real('a%d' % i, -20, 5) for i in range(n)]
        hi = [x + 10.0 for x in lo]
        df = cm.daily(ctx, n, t_min=lo, t_max=hi, daylength=40000.0)
        out = disaggregate(df, cm.params(time_step=ts,
                                         tmax_daylength_fraction=frac), sg)
        T = cm.col_of(out, 'temp')
        ctx.observe('T', T)
        # the slot before the first lit one ends the night, the last lit one
        # ends the day
        R, S = (r - 1) * 120.0, (s - 1) * 120.0
        judge(ctx, T, ts, [(R, R + frac * (S - R))] * n, lo, hi)
    finally:
        cnst.SW_RAD_DT = old


def polar(ctx, light, ts=60, n=2, frac=0.5):
    """Neither sunrise nor sunset: fixed times."""
    from metsim.disaggregate import disaggregate
    sg = cm.geom(360.5, 1080.5)
    row = np.full(2880, 1 / 2880.0) if light else np.zeros(2880)
    sg['tiny_rad_fract'][:] = row
    sg['daylength'][:] = 86400.0 if light else 0.0
    lo, hi = temps(ctx, n)
    df = cm.daily(ctx, n, sg=sg, t_min=lo, t_max=hi)
    out = disaggregate(df, cm.params(time_step=ts,
                                     tmax_daylength_fraction=frac), sg)
    T = cm.col_of(out, 'temp')
    ctx.observe('T', T)
    judge(ctx, T, ts, [(240, 240 + frac * 720)] * n, lo, hi)


def run(ctx, ts, n=2, **kw):
    """Whole runs: the state before the record bounds the first hours."""
    a = [ctx.real('a%d' % i, -10, 5) for i in range(n)]
    b = [x + ctx.real('r%d' % i, 3, 20) for i, x in enumerate(a)]
    s0, s1 = ctx.real('s0', -20, 0), ctx.real('s1', 1, 25)
    w = e2e.World(ctx, days=n, start='2003-06-01',
                  forcing=e2e.full(t_min=lambda t, i, j: a[t],
                                   t_max=lambda t, i, j: b[t]),
                  state=dict(t_min=lambda t, i, j: s0 if t == 89 else 1.0,
                             t_max=lambda t, i, j: s1 if t == 89 else 9.0))
    (o,) = w.run(time_step=ts, out_vars={'temp': {'out_name': 'temp'}},
                 **kw).values()
    T = list(o['vars']['temp']['data'][:, 0, 0])
    ctx.observe('T', T)
    spd = 1440 // ts
    ctx.prove(len(T) == n * spd, 'number of steps')
    # sunrise at 40 N in early June is between 4 and 5 a.m., the maximum at
    # 0.67 of the daylight between 2 and 3 p.m.
    for i, x in enumerate(T):
        t = (i + 1) * ts
        d, q = divmod(t, 1440)
        if q <= 240:
            pre = (s1 if d == 0 else b[d - 1])
            nxt = a[d] if d < n else a[n - 1]
            hull(ctx, x, (pre, nxt), 'continues from the day before')
        elif 300 <= q <= 840:
            hull(ctx, x, (a[d], b[d]), 'between the extremes of its day')
        elif q >= 900:
            nxt = a[d + 1] if d + 1 < n else a[n - 1]
            hull(ctx, x, (b[d], nxt), 'between maximum and next minimum')


def cases(tier):
    c = [Case('h-half', fixed, ts=60, n=3, frac=0.5),
         Case('h-quarter', fixed, ts=60, n=2, frac=0.25, begin=True,
              end=True),
         Case('h-late', fixed, ts=60, n=2, frac=0.75, begin=True),
         Case('m30', fixed, ts=30, n=2, frac=0.5, end=True,
              rises=[(330.5, 1050.5), (270.5, 1110.5)]),
         Case('leap', fixed, ts=60, n=3, frac=0.5, start='2004-02-28'),
         Case('newyear', fixed, ts=120, n=3, frac=0.5, start='2004-12-30',
              rises=[(480.5, 960.5), (240.5, 1200.5), (360.5, 1080.5)]),
         Case('t180', fixed, ts=180, n=4, frac=0.5, begin=True,
              rises=[(360.5, 1080.5), (180.5, 900.5)]),
         Case('one-day', fixed, ts=60, n=1, frac=0.5),
         Case('ending', fixed, ts=60, n=2, frac=0.5, period_ending=True),
         Case('fraction', fraction, lo_f=0.3, hi_f=0.9),
         Case('fraction-120', fraction, lo_f=0.55, hi_f=0.8, ts=120),
         Case('window', window),
         Case('window-late', window, frac=0.75, ts=120, lo_r=4, hi_s=11, n=1),
         Case('polar-night', polar, light=False),
         Case('polar-day', polar, light=True),
         Case('run-180', run, ts=180), Case('run-60', run, ts=60),
         Case('run-ending', run, ts=120, n=3, period_ending=True)]
    if tier == 'thorough':
        for i, f in enumerate((0.05, 0.125, 0.375, 0.625, 0.875, 0.95)):
            c.append(Case('f%d' % i, fixed, ts=60, n=4, frac=f, begin=i % 2,
                          end=i % 3 == 0, budget=300))
        for ts in (10, 15, 20, 90, 240, 360):
            c.append(Case('t%d' % ts, fixed, ts=ts, n=2, frac=0.5,
                          budget=300))
        for i in range(8):
            c.append(Case('fr%d' % i, fraction, lo_f=0.05 + i * .11,
                          hi_f=0.17 + i * .11, ts=60, budget=300))
        c.append(Case('window60', window, ts=60, n=3, budget=600))
    return c
