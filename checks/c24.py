"""C24: wind and cloud of a day hold through that day."""
import numpy as np

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = []
BOUNDS = {'wind': '0..60 m/s', 'cloud fraction': '0..1',
          'days': '1..5 (1..40 thorough)',
          'time step': 'every divisor of the day up to six hours'}
OUTSIDE = ['UTC output, see C03']

STEPS = [t for t in range(1, 361) if 1440 % t == 0]


def series(ctx, n):
    W = [ctx.real('W%d' % i, 0, 60) for i in range(n)]
    S = [ctx.real('S%d' % i, 0, 1) for i in range(n)]
    return W, S


def hold(ctx, got, daily, n, label):
    ctx.prove(len(got) == n * len(daily), 'one value per step')
    for d, x in enumerate(daily):
        ctx.prove_close(got[d * n:(d + 1) * n], [x] * n, label)


def frame(ctx, n, ts, start='2001-03-01', supplied=True, neg=False, **kw):
    """The disaggregation of a cell."""
    from metsim.disaggregate import disaggregate
    W, S = series(ctx, n)
    if neg:
        W = [ctx.real('N%d' % i, -60, 60) for i in range(n)]
    sg = cm.geom()
    df = cm.daily(ctx, n, start=start, sg=sg, wind=W if supplied else None,
                  tskc=S)
    out = disaggregate(df, cm.params(time_step=ts, **kw), sg)
    ctx.prove(('wind' in out.columns) == supplied,
              'wind is there exactly when it is supplied')
    if supplied:
        hold(ctx, cm.col_of(out, 'wind'), W, 1440 // ts,
             'wind of the day at every step')
        if len(out) < 100:
            ctx.observe('wind', cm.col_of(out, 'wind'))
    hold(ctx, cm.col_of(out, 'tskc'), S, 1440 // ts,
         'cloud of the day at every step')


def routine(ctx, n, ts):
    """The two routines by themselves."""
    from metsim import disaggregate as dg
    W, S = series(ctx, n)
    p = cm.params(time_step=ts)
    hold(ctx, list(dg.wind(cm.col(ctx, W), ts, p)), W, 1440 // ts,
         'wind of the day at every step')
    hold(ctx, list(dg.tskc(cm.col(ctx, S), ts, p)), S, 1440 // ts,
         'cloud of the day at every step')


def run(ctx, days, shape=(1, 2), drop=(), **kw):
    S = {}

    def g(name, hi):
        def f(t, *i):
            return S.setdefault((name, t) + i, ctx.real(
                '%s%d_%s' % (name, t, '_'.join(map(str, i))), 0, hi))
        return f
    fl = e2e.full(wind=g('W', 60), tskc=g('S', 1))
    w = e2e.World(ctx, days=days, shape=shape, forcing=fl,
                  start=kw.pop('start', '2001-03-01'))
    names = ('wind', 'tskc')
    outs = w.run(out_vars={k: {'out_name': k} for k in names}, **kw)
    ts = kw.get('time_step', 360)
    n = 1440 // ts
    for i in np.ndindex(*shape):
        for v, k in (('wind', 'W'), ('tskc', 'S')):
            got = []
            for f in sorted(outs):
                got += list(outs[f]['vars'][v]['data'][(slice(None),) + i])
            hold(ctx, got, [S[(k, t) + i] for t in range(days)], n,
                 v + ' of the day at every step')


def mtclim(ctx, ts):
    """Wind next to estimated variables."""
    S = {}

    def W(t, *i):
        return S.setdefault((t,) + i, ctx.real('W%d' % t, 0, 60))
    w = e2e.World(ctx, days=3, shape=(1, 1), forcing=dict(
        t_min=2.0, t_max=12.0, prec=1.0, wind=W))
    (o,) = w.run(method='mtclim', time_step=ts,
                 out_vars={'wind': {'out_name': 'speed'}}).values()
    hold(ctx, list(o['vars']['speed']['data'][:, 0, 0]),
         [S[t, 0, 0] for t in range(3)], 1440 // ts,
         'wind of the day at every step')


def cases(tier):
    c = [Case('frame-60', frame, n=3, ts=60),
         Case('frame-360-leap', frame, n=4, ts=360, start='2004-02-27'),
         Case('frame-20-year', frame, n=3, ts=20, start='2004-12-30'),
         Case('frame-period-ending', frame, n=3, ts=180, period_ending=True),
         Case('frame-no-wind', frame, n=2, ts=120, supplied=False),
         Case('frame-negative', frame, n=2, ts=90, neg=True),
         Case('frame-one-day', frame, n=1, ts=240),
         Case('frame-mtclim-lon', frame, n=2, ts=60, lon=-123.4),
         Case('run', run, days=3),
         Case('run-hourly', run, days=2, time_step=60, shape=(1, 1)),
         Case('run-period-ending', run, days=3, period_ending=True),
         Case('run-split', run, days=3, out_freq='D', shape=(2, 1)),
         Case('run-daily', run, days=4, time_step=1440),
         Case('run-leap', run, days=3, start='2004-02-28', time_step=180),
         Case('run-mtclim', mtclim, ts=360, budget=90)]
    c += [Case('routine-%d' % t, routine, n=2 if t < 5 else 5, ts=t)
          for t in STEPS]
    if tier == 'thorough':
        c += [Case('frame-t%d' % t, frame, n=4, ts=t, budget=300)
              for t in STEPS if t > 4]
        c += [Case('routine-long-%d' % t, routine, n=40, ts=t, budget=300)
              for t in STEPS if t > 10]
        c += [Case('run-t%d' % t, run, days=3, time_step=t, shape=(1, 1),
                   budget=300) for t in STEPS if t > 10]
    return c
