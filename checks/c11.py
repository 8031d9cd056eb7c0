"""C11: the output time axis is complete, uniform and correctly labelled."""
import numpy as np
import pandas as pd

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'values': 'every value in range', 'time step': 'every divisor of a '
          'day from 15 minutes to six hours, and daily', 'days': '1..70 '
          '(1..800 for daily steps)', 'start': 'within and across months, '
          'years and leap days', 'files': 'unsplit, and split by hours, days, '
          'weeks, months, quarters, years and spans of them'}
OUTSIDE = ['calendars other than the standard one (see C12)',
           'split frequencies given as pandas objects']
EPOCH = pd.Timestamp('2000-01-01')


def stamps(v):
    """The written stamps, decoded from the declared unit."""
    unit, since = str(v['attrs']['units']).split(' since ')
    k = {'minutes': 1, 'hours': 60, 'days': 1440, 'seconds': 1 / 60.0}[unit]
    return [pd.Timestamp(since) + pd.Timedelta(minutes=float(x) * k)
            for x in v['data']]


def values(ctx, S, k, t, *i):
    key = (k, t) + i
    if key not in S:
        S[key] = ctx.real('%s_%d_%s' % (k, t, '_'.join(map(str, i))), 0,
                          {'prec': 300, 'wind': 60, 'shortwave': 500,
                           'pet': 20}[k])
    return S[key]


def axis(ctx, ts=360, days=2, start='2001-03-01', freq=None, ending=False,
         names=('prec', 'wind', 'shortwave'), shape=(1, 1), files=None,
         before=0, after=0, when=None, lon=0.0, utc=False, **kw):
    S = {}
    t0 = pd.Timestamp(start)
    rec = pd.date_range(t0 - pd.Timedelta(days=before),
                        periods=days + before + after)
    f = {k: (lambda k: lambda t, *i: values(ctx, S, k, t - before, *i)
             if 0 <= t - before < days else 1.0)(k)
         for k in ('prec', 'wind', 'shortwave', 'pet')}
    w = e2e.World(ctx, days=days, start=start, shape=shape, time=rec,
                  coords=dict(lon=[lon + 3.0 * j for j in range(shape[1])],
                              lat=[40.0 + j for j in range(shape[0])]),
                  forcing=e2e.full(**f), objects=True,
                  state_start=t0 - pd.Timedelta(days=90))
    over = dict(time_step=ts, out_freq=freq, period_ending=ending,
                utc_offset=utc, out_vars={k: {'out_name': k} for k in names})
    if when is not None:
        over.update(when(t0, t0 + pd.Timedelta(days=days - 1)))
    over.update(kw)
    out = w.run(**over)
    ts = int(ts)
    step = pd.Timedelta(minutes=ts)
    daily = ts == 1440
    n = 1440 // ts
    want = pd.date_range(t0, periods=n * days, freq=step)
    if ending:
        want = want + step
    got = []
    for name, o in out.items():
        st = stamps(o['vars']['time'])
        ctx.prove(len(st) > 0, 'every file holds stamps')
        ctx.prove(all(b - a == step for a, b in zip(st, st[1:])),
                  'stamps of a file are evenly spaced')
        ctx.prove(o['dims']['time'] == len(st) and all(
            len(o['vars'][k]['data']) == len(st) for k in names
            if k in o['vars']), 'one value per stamp')
        if freq in PERIODS and len(st):
            ctx.prove(len({PERIODS[freq](s) for s in st}) == 1,
                      'the stamps of a file are of one period')
        got += [(s, name, j) for j, s in enumerate(st)]
    got.sort(key=lambda g: g[0])
    ctx.prove([g[0] for g in got] == list(want),
              'every step of every day is there once')
    if freq in PERIODS:
        ctx.prove(len(out) == len({PERIODS[freq](s) for s in want}),
                  'one file per period')
    elif freq is None or freq == '':
        ctx.prove(len(out) == 1, 'one file')
    if [g[0] for g in got] != list(want):
        return
    for i in np.ndindex(*shape):
        series = {k: [out[g[1]]['vars'][k]['data'][(g[2],) + i] for g in got]
                  for k in names}
        for k in names:
            x = series[k]
            if daily or k == 'wind':
                ctx.prove_close(x, [S[(k, t) + i] for t in range(days)
                                    for _ in range(n)],
                                'the value of the step stands at its stamp')
            elif k == 'prec':
                ctx.prove_close(x, [S[(k, t) + i] / n for t in range(days)
                                    for _ in range(n)],
                                'the value of the step stands at its stamp')
            elif k == 'shortwave':
                # the sun of a day is centred on its noon
                for t in range(days):
                    d = x[t * n:(t + 1) * n]
                    ctx.prove_close(
                        [ctx.sum(d) / n, d[0]],
                        [S[(k, t) + i], d[-1]],
                        'the value of the step stands at its stamp',
                        rtol=1e-3, atol=0.5)
                    ctx.prove_close(d[:n // 2], d[::-1][:n // 2],
                                    'the value of the step stands at its '
                                    'stamp', rtol=.02, atol=2.0)


PERIODS = {'D': lambda s: s.date(), '1D': lambda s: s.date(),
           'MS': lambda s: (s.year, s.month),
           'M': lambda s: (s.year, s.month),
           'AS': lambda s: s.year, 'A': lambda s: s.year,
           'H': lambda s: (s.date(), s.hour)}


def asked(kind):
    """start and stop as they may be written."""
    def f(a, b):
        if kind == 'slashes':
            return dict(start=a.strftime('%Y/%m/%d'),
                        stop=b.strftime('%Y/%m/%d'))
        if kind == 'dashes':
            return dict(start=a.strftime('%Y-%m-%d'),
                        stop=b.strftime('%Y-%m-%d'))
        if kind == 'dates':
            return dict(start=a.date(), stop=b.date())
        if kind == 'stamps':
            return dict(start=a, stop=b)
        if kind == 'record':
            return dict(start='forcing', stop='forcing')
        if kind == 'from':
            return dict(start=a.strftime('%Y/%m/%d'), stop='forcing')
        return dict(start='forcing', stop=b.strftime('%Y/%m/%d'))
    return f


def cases(tier):
    c = [Case('steps-%d' % ts, axis, ts=ts)
         for ts in (15, 20, 24, 30, 32, 36, 40, 45, 48, 60, 72, 80, 90, 96,
                    120, 144, 160, 180, 240, 288, 360)]
    sp = lambda name, **k: Case(name, axis, **k)
    c += [
        sp('daily', ts=1440, days=5, names=('prec', 'wind', 'pet')),
        sp('one-day', ts=360, days=1), sp('one-step', ts=1440, days=1,
                                          names=('prec', 'wind')),
        sp('text', ts='180', days=2),
        sp('ending', ts=360, ending=True, days=3),
        sp('ending-hour', ts=60, ending=True),
        sp('ending-15', ts=15, ending=True),
        sp('by-day', freq='D', days=3), sp('by-day-1', freq='1D', days=1),
        sp('by-day-hour', freq='D', ts=60, days=3, start='2001-12-30'),
        sp('by-day-ending', freq='D', days=3, ending=True),
        sp('by-day-daily', freq='D', ts=1440, days=4, names=('prec', 'wind')),
        sp('by-two-days', freq='2D', days=5),
        sp('by-three-days-ending', freq='3D', days=7, ending=True),
        sp('by-hour', freq='H', ts=30, days=2),
        sp('by-hour-coarser', freq='H', ts=180, days=2),
        sp('by-12', freq='12H', ts=180, days=2),
        sp('by-36', freq='36H', ts=360, days=5),
        sp('by-12-ending', freq='12H', ts=180, days=2, ending=True),
        sp('by-20', freq='20H', ts=360, days=5),
        sp('by-20-ending', freq='20H', ts=360, days=4, ending=True),
        sp('by-18', freq='18H', ts=360, days=4),
        sp('by-90', freq='90T', ts=45, days=1),
        sp('by-week', freq='W', days=16),
        sp('by-week-ending', freq='W', days=9, ending=True),
        sp('by-month', freq='MS', days=35, start='2001-12-30'),
        sp('by-month-end', freq='M', days=33, start='2004-01-30'),
        sp('by-month-ending', freq='MS', days=32, start='2001-01-31',
           ending=True),
        sp('by-month-daily', freq='MS', ts=1440, days=70, start='2003-12-31',
           names=('prec', 'wind')),
        sp('by-quarter', freq='QS', ts=1440, days=200, start='2000-02-28',
           names=('prec',)),
        sp('by-year', freq='AS', days=4, start='2000-12-30'),
        sp('by-year-end', freq='A', ts=1440, days=400, start='2003-12-31',
           names=('prec',)),
        sp('by-ten-years', freq='10AS', ts=1440, days=3,
           start='2009-12-31', names=('prec', 'wind')),
        sp('by-nothing', freq='', days=2),
        sp('leap', days=3, start='2004-02-28', ts=360),
        sp('leap-century', days=3, start='2000-02-28', ts=180),
        sp('no-leap-century', days=3, start='1900-02-27', ts=180),
        sp('old', days=2, start='1899-12-31', ts=360, freq='D'),
        sp('years', days=3, start='2001-12-30', ts=360),
        sp('inside', days=2, before=3, after=2),
        sp('inside-by-day', days=3, before=3, after=2, freq='D', ts=180),
        sp('inside-ending', days=2, before=1, after=4, ending=True),
        sp('cells', days=3, shape=(2, 2), freq='2D', chunks={'lat': 1}),
        sp('cells-ending', days=2, shape=(2, 3), ending=True,
           chunks={'lon': 2}),
        sp('utc-zero', days=2, ts=180, freq='D', utc=True),
        sp('single-precision', days=2, out_precision='f4',
           names=('wind',))]
    for k in ('slashes', 'dashes', 'dates', 'stamps', 'record', 'from', 'to'):
        kw = dict(before=2, after=3) if k in ('slashes', 'dashes', 'dates',
                                              'stamps') else {}
        if k == 'from':
            kw = dict(before=2)
        if k == 'to':
            kw = dict(after=2)
        c.append(Case('asked-' + k, axis, days=3, ts=360,
                      start='2003-02-27', when=asked(k), **kw))
    if tier == 'thorough':
        for ts in (15, 30, 60, 120, 180, 360, 1440):
            for fr in (None, '3H', '6H', 'D', '2D', '10D', 'W', 'MS', 'AS'):
                if ts == 1440 and fr in ('3H', '6H'):
                    continue
                for e in (False, True):
                    if e and ts == 1440:
                        continue
                    for s in ('2003-12-25', '2004-02-20'):
                        c.append(Case(
                            'all-%d-%s-%d-%s' % (ts, fr, e, s), axis, ts=ts,
                            freq=fr, ending=e, start=s, days=12, budget=200,
                            names=('prec', 'wind') if ts == 1440 else
                            ('prec', 'wind', 'shortwave')))
        c += [sp('long-daily', ts=1440, days=800, start='2003-06-01',
                 names=('prec',), freq='AS', budget=300),
              sp('long', ts=360, days=70, start='2003-12-01', freq='MS',
                 budget=300)]
    return c
