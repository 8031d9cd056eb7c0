"""C12: date arithmetic honours the calendar of the forcings."""
from datetime import datetime

import numpy as np
import pandas as pd

from symx.runner import Case
from . import c17, e2e

ASSUMPTIONS = ['cftime counts the days of its calendars correctly '
               '(symbolic dates; the replays and whole runs use it as it is)']
BOUNDS = {'calendars': 'standard, gregorian, proleptic_gregorian, noleap, '
          '365_day (all_leap, 366_day and 360_day where their dates exist)',
          'first date': 'any minute from 1700 to 2200 (symbolic ranges), '
          'around leap days and year ends (whole runs)',
          'steps': '0..400 of 1 to 1440 minutes, 1 to 24 hours and 1 to 10 '
          'days', 'values': 'every value in range'}
OUTSIDE = ['day of the year in a leap year of a calendar without leap days, '
           'which the code takes from the standard calendar',
           'rounding within a date']
NOLEAP = ('noleap', '365_day')
STANDARD = ('standard', 'gregorian', 'proleptic_gregorian')
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
LEN = {**{c: CUM for c in NOLEAP},
       '360_day': [30 * i for i in range(13)],
       'all_leap': [x + (i > 1) for i, x in enumerate(CUM)],
       '366_day': [x + (i > 1) for i, x in enumerate(CUM)]}


def number(cal, t):
    """Minutes since 0001-01-01 in a calendar whose years are all alike."""
    m = LEN[cal]
    if t.day > m[t.month] - m[t.month - 1]:
        return None
    d = (t.year - 1) * m[12] + m[t.month - 1] + t.day - 1
    return d * 1440 + t.hour * 60 + t.minute + t.second / 60.0


def date(cal, n):
    m = LEN[cal]
    d, r = divmod(int(n), 1440)
    y, d = divmod(d, m[12])
    k = max(i for i in range(12) if m[i] <= d)
    return datetime(y + 1, k + 1, d - m[k] + 1, r // 60, r % 60)


# ------------------------------------------------ ranges at any date (symbolic)
class Date:
    """A date of a calendar whose years are all alike, as minutes."""

    def __init__(self, n):
        self.n = n

    def isoformat(self, *a):
        return self

    def to_pydatetime(self, *a):
        return self


class Dates:
    def __init__(self, xs):
        self.xs = list(xs)

    def to_pydatetime(self, *a):
        return [x for x in self.xs]

    to_datetimeindex = to_pydatetime


UNIT = {'minutes': 1, 'hours': 60, 'days': 1440}


def model(ctx, cal, seen):
    """metsim.datetime with dates as numbers: the calendar library converts
    between the two in the declared unit."""
    import metsim.datetime as md

    def unit(u, calendar):
        seen.append(calendar)
        k, _, o = u.partition(' since ')
        if not o.startswith('0001-01-01'):
            raise NotImplementedError(u)
        return UNIT[k]

    def date2num(d, units, calendar=None, **kw):
        k = unit(units, calendar)
        if isinstance(d, Date):
            return d.n / k
        return ctx.nd([x.n / k for x in d])

    def num2date(v, units, calendar='standard', **kw):
        k = unit(units, calendar)
        if np.ndim(v) == 0 and not hasattr(v, '__len__'):
            return Date(v * k)
        return [Date(x * k) for x in v]

    class P:
        Timestamp = staticmethod(lambda d: d)

        @staticmethod
        def to_datetime(xs):
            return Dates(xs)

        def __getattr__(self, k):
            return getattr(pd, k)

    class X:
        @staticmethod
        def CFTimeIndex(xs):
            return Dates(xs)

    keep = {k: md.__dict__[k] for k in ('pd', 'xr', 'date2num', 'num2date')}
    md.pd, md.xr, md.date2num, md.num2date = P(), X, date2num, num2date
    return md, keep


def call(ctx, cal, f, *dates):
    """f(module, dates...) -> minutes of the dates it returns"""
    seen = []
    if ctx.sym:
        md, keep = model(ctx, cal, seen)
        try:
            r = f(md, *[Date(n) for n in dates])
        finally:
            md.__dict__.update(keep)
        ctx.prove(set(seen) == {cal}, 'counted in the calendar asked for')
        return [x.n for x in (r if isinstance(r, list) else [r])]
    import metsim.datetime as md
    r = f(md, *[date(cal, n) for n in dates])
    r = list(r) if hasattr(r, '__len__') else [r]
    return [number(cal, pd.Timestamp(x)) for x in r]


BASE = {'noleap': 365, '365_day': 365, '360_day': 360, 'all_leap': 366,
        '366_day': 366}


def ranges(ctx, cal, freq, steps, first=None):
    """The dates from start to end in equal steps, at any start."""
    n, u = int(freq[:-1] or 1), freq[-1]
    k = n * {'T': 1, 'H': 60, 'D': 1440}[u]
    y = BASE[cal] * 1440
    # dates of the years 1700 to 2200; whole days with steps in days
    if u == 'D':
        t0 = ctx.int('day', 1700 * BASE[cal], 2200 * BASE[cal]) * 1440
    elif u == 'H':
        t0 = ctx.int('hour', 1700 * BASE[cal] * 24, 2200 * BASE[cal] * 24) \
            * 60
    else:
        t0 = ctx.int('minute', 1700 * y, 2200 * y)
    got = call(ctx, cal, lambda m, a, b: m.date_range(
        a, b, freq=freq, calendar=cal), t0, t0 + steps * k)
    ctx.prove(len(got) == steps + 1, 'as many dates as steps')
    ctx.prove_close([g - t0 for g in got],
                    [i * k for i in range(len(got))],
                    'equal steps from start to end', atol=1e-6)


def shift(ctx, cal, days):
    """Days counted before and after any date."""
    d = ctx.int('day', 1700 * BASE[cal], 2200 * BASE[cal]) * 1440
    got = call(ctx, cal, lambda m, a: m.add_days(a, days, cal), d)
    ctx.prove_close([got[0] - d], [days * 1440], 'days are counted in the '
                    'calendar', atol=1e-6)


def plain(ctx, cal, start, periods, freq):
    """Ranges of the standard calendars."""
    from metsim.datetime import date_range
    want = pd.date_range(start, periods=periods, freq=freq)
    a = ctx.choice('form', [0, 1])
    p = want[[0, -1]]
    got = date_range(*(p if a else p.to_pydatetime()), freq=freq,
                     calendar=cal)
    ctx.prove(list(got) == list(want), 'every date of the range once')


# ------------------------------------------------------------- whole runs
def days_of(cal, start, n):
    """The n days from a date on."""
    if cal in STANDARD:
        return list(pd.date_range(start, periods=n))
    t = number(cal, pd.Timestamp(start))
    return [pd.Timestamp(date(cal, t + 1440 * i)) for i in range(n)]


def index(cal, start, n):
    import xarray as xr
    if cal in STANDARD:
        return pd.date_range(start, periods=n)
    return xr.cftime_range(pd.Timestamp(start).strftime('%Y-%m-%d'),
                           periods=n, calendar=cal)


def before(cal, start, n):
    if cal in STANDARD:
        return pd.Timestamp(start) - pd.Timedelta(days=n)
    return pd.Timestamp(date(cal, number(cal, pd.Timestamp(start)) -
                             1440 * n))


def same(a, b):
    if a in STANDARD:
        return b in STANDARD
    return {a, b} <= set(NOLEAP) or a == b or \
        {a, b} <= {'all_leap', '366_day'}


def run(ctx, cal, start='2004-02-27', days=4, ts=360, param=None, lead=0,
        tail=0, asked=True, fmt='netcdf', stamp=None, **kw):
    """A run on forcings of a calendar: its written axis and its values."""
    import cftime
    S = {}

    def v(k, hi):
        def f(t, *i):
            if (k, t) not in S:
                S[k, t] = ctx.real('%s%d' % (k, t), 0, hi)
            return S[k, t]
        return f
    first = before(cal, start, lead)
    w = e2e.World(ctx, days=days, start=start, shape=(1, 1), objects=True,
                  coords=dict(lat=[40.0], lon=[0.0]),
                  time=index(cal, first, lead + days + tail),
                  forcing=e2e.full(prec=v('prec', 300), wind=v('wind', 60)),
                  post=lambda w: arrange(w))

    def arrange(w):
        w.st['time'] = index(cal, before(cal, start, 90), 90)
        if stamp is not None:
            d = pd.Timedelta(stamp)
            t = w.met.indexes['time']
            w.met['time'] = t + (d if cal in STANDARD else d.to_pytimedelta())
    D = days_of(cal, start, days)
    over = dict(time_step=ts, out_vars={k: {'out_name': k}
                                        for k in ('prec', 'wind')},
                start='forcing', stop='forcing')
    if asked:
        over.update(start=D[0].strftime('%Y/%m/%d'),
                    stop=D[-1].strftime('%Y/%m/%d'))
    if param:
        over['calendar'] = param
    over.update(kw)
    if fmt == 'data':
        w.build()
        w.build = lambda: w
        over.update(forcing_fmt='data', forcing=w.met)
    out = w.run(**over)
    n = 1440 // ts
    got = []
    for o in out.values():
        tv = o['vars']['time']
        c = str(tv['attrs'].get('calendar'))
        ctx.prove(same(cal, c), 'the axis is in the calendar of the forcings')
        for j, d in enumerate(cftime.num2date(
                [int(x) for x in tv['data']], str(tv['attrs']['units']), c)):
            got.append(((d.year, d.month, d.day, d.hour, d.minute), o, j))
    got.sort(key=lambda g: g[0])
    off = ts if kw.get('period_ending') else 0
    want = []
    for d in D:
        for m in range(off, 1440 + off, ts):
            if m == 1440:
                e = days_of(cal, d, 2)[1]
                want.append((e.year, e.month, e.day, 0, 0))
            else:
                want.append((d.year, d.month, d.day, m // 60, m % 60))
    ctx.prove([g[0] for g in got] == want, 'the axis decodes to the days '
              'that were run')
    if len(got) != len(want):
        return
    col = lambda k: [g[1]['vars'][k]['data'][g[2], 0, 0] for g in got]
    ctx.prove_close(col('wind'), [S['wind', lead + t] for t in range(days)
                                  for _ in range(n)],
                    'values of the days that were run', rtol=1e-9)
    ctx.prove_close(col('prec'), [S['prec', lead + t] / n
                                  for t in range(days) for _ in range(n)],
                    'values of the days that were run', rtol=1e-9)


def ninety(ctx, cal, start, days=3, extra=7, param=None):
    """The antecedent conditions span the ninety days of the calendar."""
    S = {}

    def arrange(w):
        w.st['time'] = index(cal, before(cal, start, 90 + extra), 90 + extra)
    w = e2e.World(
        ctx, days=days, start=start, shape=(1, 1),
        forcing=e2e.full(**c17.series(ctx, S, 'f', ('prec',))),
        state=c17.series(ctx, S, 's', ('prec',)), time=index(cal, start, days),
        state_days=90 + extra, post=arrange)
    D = days_of(cal, start, days)
    over = dict(start=D[0].to_pydatetime(), stop=D[-1].to_pydatetime())
    if param:
        over['calendar'] = param
    r = c17.spied(w, **over)[40.0, 10.0]
    ctx.prove(r['days'] == D, 'the days of the run')
    P = [S['s', 'prec', t, 0, 0] for t in range(90 + extra)] + \
        [S['f', 'prec', t, 0, 0] for t in range(days)]
    ctx.prove_close(r['seasonal_prec'],
                    [ctx.sum(P[d + 1 + extra:d + 91 + extra]) *
                     (c17.YEAR / 90) for d in range(days)],
                    'the ninety days are counted in the calendar')


def cases(tier):
    c = []
    freqs = ('60T', '15T', '1440T', '1T', '90T', '360T', 'D', '1D', '3D',
             '1H', '6H', '24H')
    for cal in ('noleap', '365_day', '360_day'):
        for i, fr in enumerate(freqs):
            if cal != 'noleap' and i % 3:
                continue
            for n in (0, 1, 7) if cal == 'noleap' else (5,):
                c.append(Case('range-%s-%s-%d' % (cal, fr, n), ranges,
                              cal=cal, freq=fr, steps=n))
        for d in (-90, -1, 1, 400, 0):
            c.append(Case('days-%s-%d' % (cal, d), shift, cal=cal, days=d))
    c.append(Case('range-long', ranges, cal='noleap', freq='D', steps=400,
                  budget=120))
    for cal in STANDARD:
        for s, n, fr in (('2004-02-27', 5, 'D'), ('1900-02-27', 5, 'D'),
                         ('2000-02-28 21:00', 9, '60T'),
                         ('1999-12-31', 13, '180T'), ('2001-01-01', 1, 'D')):
            c.append(Case('plain-%s-%s-%s' % (cal, s, fr), plain, cal=cal,
                          start=s, periods=n, freq=fr))
    go = lambda name, **k: Case(name, run, **k)
    for cal in STANDARD + NOLEAP:
        c += [go('leap-' + cal, cal=cal),
              go('leap-asked-not-' + cal, cal=cal, asked=False),
              go('ending-' + cal, cal=cal, period_ending=True, days=3),
              go('after-' + cal, cal=cal, start='2004-03-01', days=2),
              go('year-' + cal, cal=cal, start='2003-12-30', days=3, ts=180),
              go('daily-' + cal, cal=cal, start='2003-02-26', days=6,
                 ts=1440)]
    for cal in NOLEAP:
        c += [go('param-' + cal, cal=cal, param='noleap'),
              go('other-param-' + cal, cal=cal, param='standard'),
              go('inside-' + cal, cal=cal, lead=5, tail=4),
              go('split-' + cal, cal=cal, out_freq='D'),
              go('months-' + cal, cal=cal, out_freq='MS', ts=1440, days=10),
              go('noon-' + cal, cal=cal, stamp='12h'),
              go('data-' + cal, cal=cal, fmt='data', asked=True),
              go('hours-' + cal, cal=cal, ts=60, days=3),
              go('span-' + cal, cal=cal, start='2003-12-15', days=90,
                 ts=1440, budget=90),
              go('centuries-' + cal, cal=cal, start='1900-02-27'),
              go('thousand-' + cal, cal=cal, start='2000-02-28', days=2)]
    c += [go('all-leap', cal='all_leap', start='2004-02-28', days=3),
          go('even-months', cal='360_day', start='2004-06-28', days=4)]
    for cal in STANDARD + NOLEAP:
        for s in ('2004-03-01', '2004-05-20', '2001-03-01', '2004-12-31'):
            if cal in ('365_day', 'gregorian') and s != '2004-05-20':
                continue
            c.append(Case('ninety-%s-%s' % (cal, s), ninety, cal=cal,
                          start=s))
    c.append(Case('ninety-param', ninety, cal='noleap', start='2004-04-10',
                  param='noleap'))
    if tier == 'thorough':
        for cal in ('noleap', '365_day', '360_day', '366_day', 'all_leap'):
            for m in (1, 2, 3, 5, 10, 12, 24, 30, 60, 180, 360, 720, 1440):
                for n in (1, 2, 3, 10, 100):
                    c.append(Case('any-%s-%d-%d' % (cal, m, n), ranges,
                                  cal=cal, freq='%dT' % m, steps=n,
                                  budget=120))
        for cal in NOLEAP + STANDARD:
            for s in pd.date_range('2003-12-25', periods=20, freq='5D'):
                for e in (False, True):
                    c.append(Case('runs-%s-%s-%d' % (cal, s.date(), e), run,
                                  cal=cal, start=str(s.date()), days=6,
                                  period_ending=e, budget=120))
            c.append(Case('long-' + cal, run, cal=cal, start='2003-11-01',
                          days=500, ts=1440, budget=600))
    return c
