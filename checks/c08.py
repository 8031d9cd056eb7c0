"""C08: solar geometry is bounded and normalised for every day."""
import builtins
import math

import numpy as np

from symx.runner import Case
from . import common as cm

ASSUMPTIONS = ['the time step of the radiation routine is 1 h or half an hour '
               'instead of 30 s (a constant of the module)',
               'one day of the year is computed per case; its position in the '
               'year is continuous']
BOUNDS = {'latitude': '-89.9..89.9 in windows', 'elevation': '0..9000 m',
          'lapse rate': '0.004..0.009 K/m', 'day': '0..365.25 in windows',
          'steps': '0..49 per day', 'step of the short days and of the '
          'cases with air': '600..1200 s', 'latitude of the cases with air':
          'listed'}
OUTSIDE = ['floating-point rounding of the bin of a step',
           'windows of latitude in which the polar day begins']


class days:
    """Runs the loop over the days for one day only."""

    def __init__(self, d):
        self.d = d

    def __call__(self, *a):
        if len(a) == 1 and a[0] == 365 or a == (0, 365) or a == (0, 365, 1):
            return builtins.range(self.d, self.d + 1)
        return builtins.range(*a)


def pyfunc(f):
    """The Python function behind a compiled one."""
    return getattr(f, 'py_func', f)


def geom(ctx, day, elev, lat, lr, dt, off):
    import metsim.constants as cnst
    import metsim.physics as ph
    old = (cnst.SW_RAD_DT, cnst.DAYS_OFF)
    g = ph.__dict__
    r = g.get('range')
    cnst.SW_RAD_DT = float(dt)
    cnst.DAYS_OFF = cnst.DAYS_OFF + off
    g['range'] = days(day)
    try:
        return pyfunc(ph.solar_geom)(elev, lat, lr)
    finally:
        cnst.SW_RAD_DT, cnst.DAYS_OFF = old
        if r is None:
            del g['range']
        else:
            g['range'] = r


RAD, RPD, SPR, DECL, OFF = (0.01745329, 0.017214, 13750.9871, -0.4092797,
                            11.25)


def go(ctx, lat=(40, 40.5), day=172, span=1.0, elev=(0, 4000),
       lr=(.0065, .0065), dt=3600, last=False):
    la = ctx.real('lat', *lat)
    el = ctx.real('elev', *elev)
    lp = ctx.real('lr', *lr) if lr[0] != lr[1] else lr[0]
    off = ctx.real('off', 0, span) if span else 0.0
    tiny, dl, pot, tt = geom(ctx, day, el, la, lp, dt, off)
    row = lambda a, i: list(np.asarray(a)[i])
    T, D, P, C = row(tiny, day), dl[day], pot[day], tt[day]
    for k, v in (('length', D), ('potential', P), ('transmittance', C)):
        ctx.observe(k, v)
        ctx.prove(ctx.isnum(v), k + ' is a number')
    for b, v in enumerate(T):
        ctx.observe('share%d' % b, v)
    # the length of the day
    decl = DECL * ctx.fn('cos', (day + OFF + off) * RPD)
    phi = la * RAD
    sl, cl = ctx.fn('sin', phi), ctx.fn('cos', phi)
    sd, cd = ctx.fn('sin', decl), ctx.fn('cos', decl)
    hss = ctx.fn('arccos', ctx.min(ctx.max(-(sl * sd) / (cl * cd), -1.0),
                                   1.0))
    ctx.prove(ctx.close(D, ctx.min(2.0 * hss * SPR, 86400.0)),
              'day length follows from latitude and declination')
    ctx.prove(ctx.band(ctx.le(0.0, D), ctx.le(D, 86400.0)),
              'day length lies in 0..24 h')
    n = len(T)
    ctx.prove(n == 86400 // dt, 'one share per step of the routine')
    for b, v in enumerate(T):
        ctx.prove(ctx.le(0.0, v), 'shares are not negative')
        lo, hi = (b + 1) * dt - 43200, b * dt - 43200
        ctx.prove(ctx.implies(ctx.bor(lo <= -D / 2 - 1, hi >= D / 2 + 1),
                              ctx.close(v, 0.0)),
                  'shares vanish outside of the day')
    s = ctx.sum(T)
    up = P > 0
    ctx.prove(ctx.implies(up, ctx.close(s, 1.0)),
              'shares sum to one when the sun rises')
    ctx.prove(ctx.implies(ctx.bnot(up), ctx.close(s, 0.0)),
              'shares sum to zero when it does not')
    ctx.prove(ctx.band(ctx.le(0.0, C), ctx.le(C, 1.0)),
              'clear-sky transmittance lies in 0..1')
    ctx.prove(ctx.le(0.0, P), 'potential radiation is not negative')
    ctx.prove(ctx.le(P, 1413.5), 'potential radiation is below the solar '
              'constant')
    if last:
        for a, b in zip(row(tiny, 365), row(tiny, day)):
            ctx.prove(ctx.close(a, b), 'the 366th day repeats the 365th')
        for a in (dl, pot, tt):
            ctx.prove(ctx.close(a[365], a[day]),
                      'the 366th day repeats the 365th')


AIRMASS = [2.90, 3.05, 3.21, 3.39, 3.69, 3.82, 4.07, 4.37, 4.72, 5.12, 5.60,
           6.18, 6.88, 7.77, 8.90, 10.39, 12.44, 15.36, 19.79, 26.96, 30.00]


def air(ctx, lat, day, dt=3600, elev=(0, 9000), lr=.0065):
    """The transmittance and the radiation of one day at one latitude, at
    every height."""
    el = ctx.real('elev', *elev)
    lp = lr
    tiny, dl, pot, tt = geom(ctx, day, el, lat, lp, dt, 0.0)
    decl = DECL * math.cos((day + OFF) * RPD)
    a = math.cos(lat * RAD) * math.cos(decl)
    b = math.sin(lat * RAD) * math.sin(decl)
    hss = math.acos(min(max(-b / a, -1), 1))
    beam = (1368.0 + 45.5 * math.sin(2 * math.pi * day / 365.25 + 1.7)) * dt
    base = ctx.pow(0.87, ctx.pow(1 - lp * el / 288.15, 9.80665 / (
        lp * (8.3143 / 28.9644e-3))))
    w, tau, n = [], [], int(math.ceil(2 * hss * SPR / dt - 1e-9))
    for k in range(n):
        c = a * math.cos(-hss + k * dt / SPR) + b
        if c > 0:
            m = 1 / (c + 1e-7)
            if m > 2.9:
                m = AIRMASS[min(max(int(math.acos(c) / RAD) - 69, 0), 20)]
            w.append(c)
            tau.append(ctx.pow(base, m))
    ctx.observe('tt', tt[day])
    ctx.observe('pot', pot[day])
    if not w:
        ctx.prove(ctx.band(ctx.close(tt[day], 0.0), ctx.close(pot[day], 0.0)),
                  'nothing without sun')
        return
    tot = sum(w)
    ctx.prove(ctx.close(pot[day], tot * beam / (2 * hss * SPR), rtol=1e-6),
              'potential radiation is the mean over the day')
    ctx.prove(ctx.close(tt[day], ctx.sum([x * t for x, t in zip(w, tau)]) /
                        tot, rtol=3e-4),
              'clear-sky transmittance is that of the air above')
    T = list(np.asarray(tiny)[day])
    ctx.prove(ctx.close(ctx.sum(T), 1.0), 'shares sum to one')


QUICK = [(-89.8, 1.0, 354, False), (-78, 1.0, 20, False), (-66.55, 0.04, 171, False),
         (-45, 1.0, 300, False), (-23, 1.0, 364, True), (3, 1.0, 172, False),
         (23, 1.0, 0, False), (40, 1.0, 172, False), (60, 1.0, 354, False),
         (66.3, 0.04, 171, False), (66.52, 0.04, 354, False),
         (-66.52, 0.04, 171, False),
         (70, 1.0, 140, False), (75, 0.5, 245, False), (85, 1.0, 364, True),
         (89, 0.8, 172, False)]


def cases(tier):
    c = [Case('lat%g-day%d' % (a, d), go, lat=(a, a + w), day=d, last=l,
              span=1.0 if w > .1 else .05, budget=80) for a, w, d, l in QUICK]
    c += [Case('half-hour', go, dt=1800, lat=(35, 35.5), day=100, budget=80),
          Case('half-hour-polar', go, dt=1800, lat=(75, 75.5), day=175,
               budget=80),
          Case('high', go, lat=(28, 28.5), day=200, elev=(0, 9000),
               lr=(.004, .009), budget=80),
          Case('short-day', go, dt=600, lat=(66.4, 66.41), day=354, span=0,
               elev=(0, 1000), budget=80),
          Case('short-day-south', go, dt=600, lat=(-66.41, -66.4), day=171,
               span=0, elev=(0, 1000), budget=80)]
    c += [Case('air%g-day%d' % (a, d), air, lat=a, day=d, budget=80)
          for a, d in ((0, 80), (35, 172), (-35, 172), (47.3, 10), (66.3, 354),
                       (-62, 200), (71, 172), (80, 354), (-89.9, 354),
                       (15, 300))]
    c += [Case('air-fine', air, lat=51.5, day=300, dt=1200, budget=80),
          Case('air-lapse', air, lat=22.0, day=120, lr=.009, budget=80),
          Case('air-lapse-low', air, lat=-49.5, day=30, lr=.004, budget=80)]
    if tier == 'thorough':
        have = {(a, d) for a, w, d, l in QUICK}
        for a in range(-89, 89, 6):
            for d in (0, 50, 110, 172, 235, 300, 364):
                if (a, d) not in have | {(-77, 50), (-77, 110)}:
                    c.append(Case('lat%d-day%d' % (a, d), go, day=d,
                                  lat=(a, a + 1.0), last=d == 364,
                                  budget=200))
    return c
