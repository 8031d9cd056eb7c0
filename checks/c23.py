"""C23: storm parameters of a day come from its own month and cell."""
import numpy as np
import pandas as pd

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = []
BOUNDS = {'monthly duration': '4..2880 minutes', 'monthly peak':
          '0..1439 minutes', 'cells': '1..4', 'days': 'spans listed by case, '
          'up to two years'}
OUTSIDE = ['months of other calendars than standard']


class Spy:
    """Notes the daily frame every cell is computed from."""

    def __init__(self, real):
        self.real, self.seen = real, []

    def run(self, df, params):
        self.seen.append((float(params['lat']), float(params['lon']),
                          list(df.index), cm.col_of(df, 'dur'),
                          cm.col_of(df, 't_pk')))
        return self.real.run(df, params)


def table(ctx, shape, name, lo, hi, fixed=None):
    a = np.empty((12,) + shape, dtype=object)
    for m in range(12):
        for i in np.ndindex(*shape):
            k = (m,) + i
            a[k] = fixed(m, *i) if fixed else ctx.real(
                '%s_%s' % (name, '_'.join(map(str, k))), lo, hi)
    if fixed or not ctx.sym:
        a = a.astype(float)
    return a


def days(ctx, start, n, shape=(1, 2), dims=('lat', 'lon'), prec_type='mix',
         mask=None, months=None, lead=True, method='passthrough', **kw):
    """Every day of every cell is given the values of its month."""
    from metsim.metsim import MetSim
    dur = table(ctx, shape, 'dur', 4, 2880)
    pk = table(ctx, shape, 'pk', 0, 1439)
    w = e2e.World(ctx, days=n, start=start, shape=shape, dims=dims,
                  mask=mask, forcing=e2e.full(t_min=-5.0, t_max=3.0),
                  state=dict(t_min=-6.0, t_max=4.0), objects=True,
                  domain_extra={'dur': (('month',), dur),
                                't_pk': (('month',), pk)})
    if months is not None:
        w.months = months
    if len(dims) == 1:
        w.latlon = lambda i: (40.0 + i, 10.0 + 2 * i)
    if not lead:
        w.post = lambda w: setattr(w, 'domain', w.domain.transpose(
            *(dims + ('month',))))
    spy = Spy(MetSim.methods[method])
    keep = dict(MetSim.methods)
    MetSim.methods[method] = spy
    try:
        w.run(prec_type=prec_type, time_step=kw.pop('time_step', 360), **kw)
    finally:
        MetSim.methods.update(keep)
    at = {}
    m = np.ones(shape) if mask is None else np.asarray(mask)
    for i in np.ndindex(*shape):
        if m[i] > 0:
            ll = w.latlon(*i) if len(dims) == 1 else (
                w.coord('lat', i[0]), w.coord('lon', i[1]))
            at[ll] = i
    ctx.prove(sorted(s[:2] for s in spy.seen) == sorted(at),
              'every cell is computed once')
    want = pd.date_range(start, periods=n)
    for la, lo, idx, du, tp in spy.seen:
        i = at[la, lo]
        ctx.prove(idx == list(want), 'the days of the run')
        mon = [t.month - 1 for t in want]
        for got, tab, nm in ((du, dur, 'duration'), (tp, pk, 'peak')):
            ctx.prove_close(got, [tab[(k,) + i] for k in mon],
                            nm + ' of the month and the cell')


def whole(ctx, start, n, prec_type='triangle', ts=60, shape=(1, 2), **kw):
    """Precipitation written by a run is that of the day's own storm."""
    from metsim import disaggregate as dg
    P = {}

    def prec(t, *i):
        return P.setdefault((t,) + i, ctx.real(
            'P%d_%s' % (t, '_'.join(map(str, i))), 0, 300))
    D = lambda m, *i: 60.0 + 35 * m + 20 * i[1]
    K = lambda m, *i: 200.0 + 80 * ((m * 5) % 12) + 33 * i[1]
    w = e2e.World(ctx, days=n, start=start, shape=shape,
                  forcing=e2e.full(prec=prec),
                  domain_extra={
                      'dur': (('month',), table(ctx, shape, '', 0, 0, D)),
                      't_pk': (('month',), table(ctx, shape, '', 0, 0, K))})
    outs = w.run(prec_type=prec_type, time_step=ts, **kw)
    idx = pd.date_range(start, periods=n)
    for i in np.ndindex(*shape):
        got = []
        for f in sorted(outs):
            got += list(outs[f]['vars']['prec']['data'][(slice(None),) + i])
        ref = dg.prec(
            pd.Series(cm.col(ctx, [P[(t,) + i] for t in range(n)]), idx),
            pd.Series(np.full(n, 2.0), idx), ts,
            cm.params(time_step=ts, prec_type=prec_type),
            pd.Series([K(t.month - 1, *i) for t in idx], idx),
            pd.Series([D(t.month - 1, *i) for t in idx], idx))
        ctx.prove_close(got, list(np.asarray(ref)),
                        'precipitation of the storm of the month')


def integers(ctx, start='2001-05-30', n=4):
    """Precipitation stored as integers, storm parameters not."""
    from metsim.metsim import MetSim
    W = {}
    D = lambda m, *i: 60.75 + 35 * m
    K = lambda m, *i: 200.5 + 80 * ((m * 5) % 12)

    def ints(w):
        w.met['prec'] = w.met['prec'].astype('int32')
    w = e2e.World(ctx, days=n, start=start, shape=(1, 1), post=ints,
                  forcing=e2e.full(prec=7.0, wind=lambda t, *i: W.setdefault(
                      t, ctx.real('W%d' % t, 0, 20))),
                  domain_extra={
                      'dur': (('month',), table(ctx, (1, 1), '', 0, 0, D)),
                      't_pk': (('month',), table(ctx, (1, 1), '', 0, 0, K))})
    spy = Spy(MetSim.methods['passthrough'])
    keep = dict(MetSim.methods)
    MetSim.methods['passthrough'] = spy
    try:
        w.run(prec_type='triangle')
    finally:
        MetSim.methods.update(keep)
    mon = [t.month - 1 for t in pd.date_range(start, periods=n)]
    for la, lo, idx, du, tp in spy.seen:
        ctx.prove_close(du, [D(m) for m in mon], 'duration of the month '
                        'next to integer precipitation')
        ctx.prove_close(tp, [K(m) for m in mon], 'peak of the month '
                        'next to integer precipitation')


def cases(tier):
    c = [Case('new-year', days, start='2003-12-30', n=4),
         Case('leap-february', days, start='2004-02-27', n=4,
              prec_type='MIX'),
         Case('february', days, start='2005-02-27', n=3, shape=(2, 1),
              period_ending=True),
         Case('spring', days, start='2001-03-15', n=110, shape=(1, 1)),
         Case('july', days, start='2001-07-31', n=2, shape=(2, 2)),
         Case('one-day', days, start='2001-12-31', n=1),
         Case('first', days, start='2002-01-01', n=1),
         Case('autumn', days, start='2001-08-30', n=100, shape=(1, 1)),
         Case('masked', days, start='2001-05-31', n=2, shape=(2, 2),
              mask=[[0, 1], [1, 1]]),
         Case('chunks', days, start='2001-10-30', n=4, shape=(2, 2),
              chunks={'lat': 1}),
         Case('units', days, start='2001-11-29', n=4, shape=(3,),
              dims=('hru',)),
         Case('months-1-12', days, start='2001-06-29', n=4,
              months=np.arange(1, 13)),
         Case('month-last', days, start='2001-04-29', n=4, lead=False),
         Case('integers', integers),
         Case('written', whole, start='2001-05-30', n=4),
         Case('written-mix', whole, start='2003-12-30', n=4, ts=180,
              prec_type='mix'),
         Case('written-chunks', whole, start='2004-02-28', n=3, ts=120,
              shape=(2, 2), chunks={'lon': 1, 'lat': 1}),
         Case('written-months', whole, start='2001-01-30', n=64, ts=360,
              shape=(1, 1))]
    if tier == 'thorough':
        c += [Case('year', days, start='2003-11-20', n=420, shape=(1, 1),
                   budget=600),
              Case('years', days, start='2003-01-01', n=731, shape=(1, 2),
                   budget=800)]
        for m in range(1, 13):
            c.append(Case('written-from-%d' % m, whole,
                          start='2004-%02d-26' % m, n=70, ts=240,
                          shape=(1, 1), budget=300))
    return c
