"""C05: humidity and pressure stay physical and mutually consistent."""
import numpy as np

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = ['vapor pressure stays below a tenth of the air pressure',
               'PCHIP (scipy) keeps between its knots']
BOUNDS = {'t_min': '-40..35 C', 'daily range': '0..20 K',
          'daily vapor pressure': '1..4500 Pa', 'elevation': '0..5000 m',
          'lapse rate': '0.004..0.009 K/m', 'days': '1..3 per case',
          'time step': '60, 120, 180, 360 min'}
OUTSIDE = ['temperatures beyond the stated range']
EPS = 0.62196351


def go(ctx, ts, n, t0, t1, v0=1, v1=4500, r=(0, 20), elev=(500, 500),
       lr=(0.0065, 0.0065), rises=None, start='2001-06-10', **kw):
    from metsim.disaggregate import disaggregate
    import pandas as pd
    idx = pd.date_range(start, periods=n)
    pat = rises or [(360.5, 1080.5)]
    tab = {int(d) - 1: pat[i % len(pat)]
           for i, d in enumerate(idx.dayofyear)}
    sg = cm.geom(rises={d: tab.get(d, (480.5, 960.5)) for d in range(366)})
    lo = [ctx.real('a%d' % i, t0, t1) for i in range(n)]
    hi = [x + ctx.real('r%d' % i, *r) for i, x in enumerate(lo)]
    vp = [ctx.real('v%d' % i, v0, v1) for i in range(n)]
    df = cm.daily(ctx, n, start=start, sg=sg, t_min=lo, t_max=hi,
                  vapor_pressure=vp)
    z = elev[0] if elev[0] == elev[1] else ctx.real('z', *elev)
    g = lr[0] if lr[0] == lr[1] else ctx.real('lr', *lr)
    out = disaggregate(df, cm.params(time_step=ts, elev=z, lapse_rate=g,
                                     tmax_daylength_fraction=0.5, **kw), sg)
    T, V, RH, Q, P = [cm.col_of(out, k) for k in
                      ('temp', 'vapor_pressure', 'rel_humid', 'spec_humid',
                       'air_pressure')]
    ctx.observe('V', V)
    ctx.observe('RH', RH)
    ctx.observe('Q', Q)
    ctx.observe('P', P)
    N = n * 1440 // ts
    ctx.prove(all(len(x) == N for x in (T, V, RH, Q, P)), 'number of steps')
    rise = [d * 1440 + tab[int(k) - 1][0] - 0.5
            for d, k in enumerate(idx.dayofyear)]
    # before the first and after the last sunrise the nearest value holds
    inside = [i for i in range(N)
              if rise[0] <= (i + 1) * ts <= rise[-1]]
    for i in range(N):
        ctx.prove(ctx.isnum(V[i]), 'vapor pressure is there')
        if not ctx.isnum(V[i]):
            return
        # ---- pressure
        p = 101.325 * ctx.exp(-(z * 9.80665) / (
            287 * (273.15 + T[i] - 0.5 * z * g)))
        ctx.prove(ctx.close(P[i], p), 'air pressure from elevation and '
                                      'temperature')
        ctx.prove(P[i] > 0, 'air pressure is positive')
        # ---- relative humidity (V in kPa)
        s = ctx.svp(T[i]) / 1000
        rh = RH[i]
        ctx.prove(ctx.isnum(rh), 'relative humidity is there')
        ctx.prove(ctx.le(rh, 100.0), 'relative humidity is at most 100')
        ctx.prove(ctx.le(0.0, rh), 'relative humidity is not negative')
        ctx.prove(ctx.bor(ctx.close(rh * s, 100 * V[i]),
                          ctx.band(ctx.close(rh, 100.0),
                                   ctx.le(s, V[i]))),
                  'relative humidity is the ratio to saturation')
        # ---- specific humidity
        ctx.prove(ctx.close(Q[i] * (P[i] - (1 - EPS) * V[i]), EPS * V[i]),
                  'specific humidity from vapor and air pressure')
        # ---- vapor pressure
        ctx.prove(ctx.le(V[i], s), 'vapor pressure is at most saturation')
        ctx.prove(ctx.le(0.0, V[i]), 'vapor pressure is not negative')
        d = max([k for k in range(n) if rise[k] <= (i + 1) * ts] or [0])
        f = 0.0 if i not in inside else ((i + 1) * ts - rise[d]) / (rise[d + 1] - rise[d]) \
            if d + 1 < n else 0.0
        lin = (vp[d] + (f * (vp[d + 1] - vp[d]) if f else 0.0)) / 1000
        ctx.prove(ctx.bor(ctx.close(V[i], lin),
                          ctx.band(ctx.close(V[i], s), ctx.le(s, lin))),
                  'daily values joined linearly below saturation')


def cases(tier):
    two = [(330.5, 1110.5), (390.5, 1050.5)]
    c = [Case('deep', go, ts=180, n=2, t0=-60, t1=-42, v0=.05, v1=60, r=(0, 10)),
         Case('cold', go, ts=180, n=2, t0=-40, t1=-25, v1=300, r=(0, 20)),
         Case('freezing', go, ts=180, n=2, t0=-6, t1=2, v1=900, r=(1, 9)),
         Case('mild', go, ts=180, n=3, t0=3, t1=14, v0=100, v1=3000),
         Case('hot', go, ts=180, n=2, t0=15, t1=35, v0=100, v1=4500,
              r=(5, 20)),
         Case('h60', go, ts=60, n=2, t0=0, t1=12, v0=200, v1=2500,
              rises=two),
         Case('elev', go, ts=360, n=2, t0=2, t1=10, v0=200, v1=1500,
              elev=(0, 5000), r=(2, 10)),
         Case('lapse', go, ts=360, n=2, t0=2, t1=10, v0=200, v1=1500,
              elev=(1500, 1500), lr=(0.004, 0.009), r=(2, 10)),
         Case('elev-lapse', go, ts=360, n=2, t0=-15, t1=-5, v0=50, v1=500,
              elev=(0, 4000), lr=(0.005, 0.008), r=(2, 5)),
         Case('moving', go, ts=120, n=3, t0=5, t1=15, v0=100, v1=2500,
              rises=[(360.5, 1080.5), (240.5, 1200.5)]),
         Case('leap', go, ts=360, n=3, t0=-5, t1=15, v0=100, v1=2500,
              start='2004-02-28'),
         Case('one-day', go, ts=180, n=1, t0=0, t1=14, v0=100, v1=3000),
         Case('one-day-60', go, ts=60, n=1, t0=-9, t1=4, v0=100, v1=1500,
              rises=two),
         Case('ending', go, ts=360, n=2, t0=3, t1=14, v0=100, v1=3000,
              period_ending=True)]
    if tier == 'thorough':
        for i in range(19):
            t = -60 + 5 * i
            c.append(Case('t%d' % i, go, ts=60, n=3, t0=t, t1=t + 6, v0=1,
                          v1=4500 if t > 10 else 2000, budget=300))
        for ts in (10, 30, 240):
            c.append(Case('s%d' % ts, go, ts=ts, n=2, t0=-5, t1=15, v0=10,
                          v1=2500, budget=300))
    return c
