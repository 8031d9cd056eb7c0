"""C17: antecedent conditions join state and forcing without a gap."""
import numpy as np
import pandas as pd

from symx.runner import Case
from . import c10, common as cm, e2e

ASSUMPTIONS = []
BOUNDS = {'precipitation': '0..400 mm', 't_min': '-40..10 C',
          't_max': '11..50 C (any order in the refusal cases)',
          'days of a run': '1..120 (1..400 thorough)', 'cells': '1..4',
          'days of the state': '60..120', 'axes of the state': 'any order, '
          'larger and falling grids'}
OUTSIDE = ['missing values within state or forcing', 'noleap calendars, see '
           'C12']
YEAR = 365.25


class Spy:
    """Notes the daily frame every cell is computed from; estimates
    nothing."""

    def __init__(self):
        self.seen = {}

    def run(self, df, params):
        self.seen[float(params['lat']), float(params['lon'])] = {
            'days': list(df.index),
            **{k: cm.col_of(df, k) for k in ('seasonal_prec', 'smoothed_dtr',
                                             'dtr')}}
        return df


def spied(w, **kw):
    from metsim.metsim import MetSim
    spy, keep = Spy(), dict(MetSim.methods)
    MetSim.methods['passthrough'] = spy
    try:
        w.run(time_step=1440, method='passthrough',
              out_vars={'prec': {'out_name': 'prec'}}, **kw)
    finally:
        MetSim.methods.clear()
        MetSim.methods.update(keep)
    return spy.seen


RANGE = dict(prec=(0, 400), t_min=(-40, 10), t_max=(11, 50))


def series(ctx, S, src, free, key=lambda i: i):
    fix = dict(prec=1.5, t_min=-2.0, t_max=14.0)

    def g(k):
        def f(t, *i):
            q = (src, k, t) + key(i)
            if q not in S:
                S[q] = ctx.real('%s_%s_%d_%s' % (
                    src, k, t, '_'.join(map(str, key(i)))), *RANGE[k]) \
                    if k in free else fix[k] + .25 * (t % 7) + sum(i)
            return S[q]
        return f
    return {k: g(k) for k in RANGE}


def world(ctx, S, days, free, shape, start, tag='w', **kw):
    fl = e2e.full(**series(ctx, S, 'f', free))
    return e2e.World(ctx, days=days, shape=shape, start=start, forcing=fl,
                     state=series(ctx, S, 's', free), tag=tag, **kw)


def windows(ctx, days, free=('prec', 't_min', 't_max'), shape=(1, 1),
            start='2001-03-01', extra=0, every=1, **kw):
    """extra: days the state file holds before the ninety."""
    S = {}
    w = world(ctx, S, days, free, shape, start, state_days=90 + extra,
              state_start=pd.Timestamp(start) - pd.Timedelta(
                  days=90 + extra), **{k: kw.pop(k) for k in
                                       ('dims', 'mask', 'post', 'coords') if k in kw})
    if len(shape) == 1:
        w.latlon = lambda i: (40.0 + i, 10.0)
    seen = spied(w, **kw)
    for i in np.ndindex(*shape):
        at = w.latlon(*i) if len(shape) == 1 else (
            w.coord('lat', i[0]), w.coord('lon', i[1]))
        r = seen[at]
        ctx.prove(r['days'] == list(pd.date_range(start, periods=days)),
                  'the days of the run')
        cat = lambda k: [S[('s', k, t) + i] for t in range(90 + extra)] + \
            [S[('f', k, t) + i] for t in range(days)]
        P, lo, hi = cat('prec'), cat('t_min'), cat('t_max')
        D = [b - a for a, b in zip(lo, hi)]
        pick = [d for d in range(days) if d % every == 0 or d == days - 1]
        last = lambda xs, d, n: xs[90 + extra + d - n + 1:90 + extra + d + 1]
        ctx.prove_close([r['dtr'][d] for d in pick],
                        [D[90 + extra + d] for d in pick], 'range of the day')
        ctx.prove_close([r['smoothed_dtr'][d] for d in pick],
                        [ctx.sum(last(D, d, 30)) / 30 for d in pick],
                        'mean range of the thirty days up to the day')
        ctx.prove_close([r['seasonal_prec'][d] for d in pick],
                        [ctx.sum(last(P, d, 90)) * (YEAR / 90) for d in pick],
                        'annualised precipitation of the ninety days up to '
                        'the day')
        if pick:
            ctx.observe('first', r['seasonal_prec'][0])


def split(ctx, days, at, free=('prec', 't_min', 't_max'), ts=None):
    """Two halves with a matching state agree with the whole."""
    S = {}
    start = pd.Timestamp('2001-03-01')
    w = world(ctx, S, days, free, (1, 1), start, 'whole')
    whole = spied(w)[40.0, 10.0]
    rec = {k: [S['s', k, t, 0, 0] for t in range(90)] +
           [S['f', k, t, 0, 0] for t in range(days)] for k in RANGE}
    got = {k: [] for k in ('seasonal_prec', 'smoothed_dtr', 'dtr', 'days')}
    for a, b in ((0, at), (at, days)):
        v = e2e.World(
            ctx, days=b - a, shape=(1, 1), start=start +
            pd.Timedelta(days=a), tag='part%d' % a,
            forcing=e2e.full(**{k: lambda t, *i, k=k: rec[k][90 + a + t]
                                for k in RANGE}),
            state={k: lambda t, *i, k=k: rec[k][a + t] for k in RANGE})
        r = spied(v)[40.0, 10.0]
        for k in got:
            got[k] += r[k]
    ctx.prove(got['days'] == whole['days'], 'the halves cover the whole')
    for k in ('seasonal_prec', 'smoothed_dtr', 'dtr'):
        ctx.prove_close(got[k], whole[k], k + ' as in the unsplit run')


def refused(ctx, days=2, shape=(1, 1), near=False):
    """Records with a maximum below the minimum are refused."""
    lo, hi = {}, {}

    def f(d, nm):
        def g(t, *i):
            k = (t,) + i
            if k not in d:
                d[k] = ctx.real('%s_%s' % (nm, '_'.join(map(str, k))),
                                -30, 40)
            return d[k]
        return g
    w = e2e.World(ctx, days=days, shape=shape, forcing=e2e.full(
        t_min=f(lo, 'lo'), t_max=f(hi, 'hi')))
    try:
        seen = spied(w)
        ok = True
    except ValueError:
        ok = False
    bad = ctx.bor(*[hi[k] < lo[k] for k in lo])
    ctx.prove(ctx.bnot(bad) if ok else bad,
              'refused exactly when a maximum is below the minimum')


def state(ctx, n, shift=0, ok=True, start='2001-03-01'):
    """States that hold n days ending `shift` days before the day before the
    start."""
    S = {}
    s0 = pd.Timestamp(start) - pd.Timedelta(days=n + shift)
    w = e2e.World(ctx, days=2, shape=(1, 1), start=start, state_days=n,
                  state_start=s0, forcing=e2e.full(
                      wind=lambda t, *i: S.setdefault(t, ctx.real(
                          'w%d' % t, 0, 20))))
    try:
        w.run(time_step=1440, out_vars={'wind': {'out_name': 'wind'}})
        done = True
    except Exception:
        done = False
    ctx.prove(done == ok, 'runs exactly when the state holds the ninety days '
              'before the start')


def only_state(f):
    """Rearrange the state and leave the forcing."""
    def g(w):
        met = w.met
        f(w)
        w.met = met
    return g


def turned(*dims):
    def g(w):
        w.st = w.st.transpose(*dims)
    return g


def stamped(at):
    def g(w):
        w.st['time'] = w.st.indexes['time'] + pd.Timedelta(at)
    return g


def cases(tier):
    c = [Case('one-day', windows, days=1), Case('five', windows, days=5),
         Case('month', windows, days=31, free=('t_min', 't_max'), every=3),
         Case('season', windows, days=100, free=('prec',), every=7,
              budget=120),
         Case('leap', windows, days=3, start='2004-02-28', shape=(1, 2)),
         Case('new-year', windows, days=4, start='2003-12-30'),
         Case('cells', windows, days=2, shape=(2, 2)),
         Case('chunks', windows, days=2, shape=(2, 2), chunks={'lat': 1}),
         Case('units', windows, days=2, shape=(3,), dims=('hru',),
              budget=90),
         Case('state-transposed', windows, days=2, shape=(2, 3),
              post=turned('lon', 'time', 'lat')),
         Case('state-square', windows, days=2, shape=(2, 2),
              post=turned('time', 'lon', 'lat')),
         Case('state-reversed', windows, days=2, shape=(2, 2),
              post=only_state(c10.order(lat=[1, 0], lon=[1, 0]))),
         Case('state-larger', windows, days=2, shape=(2, 1),
              post=only_state(c10.larger()), every=1),
         Case('state-stamped', windows, days=3, extra=2, shape=(1, 2),
              post=stamped('17:30:00')),
         Case('longer-state', windows, days=3, extra=20),
         Case('long', windows, days=120, free=('t_max',), every=11,
              extra=5, budget=120),
         Case('split', split, days=6, at=2),
         Case('split-late', split, days=40, at=35, free=('t_max', 't_min')),
         Case('split-rain', split, days=95, at=91, free=('prec',),
              budget=120),
         Case('refused', refused), Case('refused-cells', refused, days=1,
                                        shape=(1, 3)),
         Case('refused-late', refused, days=4, budget=90)]
    c += [Case('state-%d-%d' % (n, s), state, n=n, shift=s, ok=ok)
          for n, s, ok in ((90, 0, True), (89, 0, False), (91, 0, True),
                           (120, 0, True), (60, 0, False), (90, 1, False),
                           (90, -1, False), (91, -1, True), (95, -5, True),
                           (1, 0, False))]
    if tier == 'thorough':
        c += [Case('year', windows, days=400, free=('prec',), every=9,
                   budget=900),
              Case('year-range', windows, days=370, free=('t_min', 't_max'),
                   every=9, budget=900),
              Case('all-60', windows, days=60, budget=900),
              Case('split-100', split, days=110, at=50, budget=900),
              Case('refused-6', refused, days=3, shape=(1, 2), budget=600)]
    return c
