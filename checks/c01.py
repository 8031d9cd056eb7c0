"""C01: sub-daily precipitation conserves the daily totals."""
from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = ['storm duration of at least 4 minutes',
               'peak time within the day (0..1439 minutes)']
BOUNDS = {'daily precipitation': '0..500 mm', 't_min': '-30..30 C',
          'days': '1..4 per case',
          'storms': 'windows of duration and peak listed by case, every real '
                    'value inside'}
OUTSIDE = ['floating-point rounding (absolute tolerance 1e-9, relative 1e-6)',
           'storm windows other than those listed',
           'missing (NaN) precipitation']


def day_sums(ctx, res, n, spd):
    return [ctx.sum(res[d * spd:(d + 1) * spd]) for d in range(n)]


def basics(ctx, res, P, ts, utc=False):
    n, spd = len(P), 1440 // ts
    ctx.prove(len(res) == n * spd, 'number of steps')
    ctx.prove_le([-x for x in res], 0.0, 'precipitation is never negative')
    if utc:
        ctx.prove_close([ctx.sum(res)], [ctx.sum(P)],
                        'the total of the record is conserved')
    else:
        ctx.prove_close(day_sums(ctx, res, n, spd), P,
                        'the total of each day is conserved')


def uniform(ctx, n, ts, utc=False, lon=None, start='2001-03-01', pend=False,
            opt='uniform', state=None):
    from metsim.disaggregate import disaggregate
    P = [ctx.real('P%d' % i, 0, 500) for i in range(n)]
    lon = ctx.real('lon', *lon) if utc else 20.0
    sg = cm.geom()
    df = cm.daily(ctx, n, start=start, sg=sg, prec=P)
    out = disaggregate(df, cm.params(time_step=ts, utc_offset=utc, lon=lon,
                                     prec_type=opt, period_ending=pend), sg)
    res = cm.col_of(out, 'prec')
    spd = 1440 // ts
    if len(res) <= 200:
        ctx.observe('prec', res)
    basics(ctx, res, P, ts, utc)
    if not utc:
        ctx.prove_close(res, [P[d] / spd for d in range(n)
                              for _ in range(spd)],
                        'uniform: every step has the same share')


def storm_shape(ctx, res, d, spd, ts, pk, dur, P):
    """Claims on one day of the triangle option."""
    day = res[d * spd:(d + 1) * spd]
    a0, b0 = pk - dur * 0.5, pk + dur * 0.5
    lo = hi = None
    for k in range(spd):
        a, b = k * ts, (k + 1) * ts - 1           # first and last minute
        outside = ctx.bor(b < a0 - 1, a > b0 + 1)
        ctx.prove(ctx.implies(outside, ctx.close(day[k], 0.0, atol=1e-6)),
                  'triangle: no rain outside the storm')
        if k + 1 < spd:
            ctx.prove(ctx.implies((k + 2) * ts - 1 <= pk,
                                  day[k] <= day[k + 1] + 1e-6),
                      'triangle: rain rises to the peak')
            ctx.prove(ctx.implies(a >= pk, day[k + 1] <= day[k] + 1e-6),
                      'triangle: rain falls after the peak')
        if k + 2 < spd:
            even = ctx.close(day[k] + day[k + 2], 2 * day[k + 1], atol=1e-6)
            last = (k + 3) * ts - 1
            ctx.prove(ctx.implies(ctx.band(a >= a0, last <= pk), even),
                      'triangle: rain rises evenly')
            ctx.prove(ctx.implies(ctx.band(a >= pk, last <= b0), even),
                      'triangle: rain falls evenly')


def triangle(ctx, ts, mix, storms, start='2001-03-01', opt=None,
             pend=False):
    from metsim.disaggregate import disaggregate
    n = len(storms)
    P = [ctx.real('P%d' % i, 0, 500) for i in range(n)]
    tmin = [ctx.real('tmin%d' % i, -30, 30) for i in range(n)] if mix \
        else [-5.0 + 3 * i for i in range(n)]
    tmax = [t + 8.0 for t in tmin]
    pks = [ctx.real('pk%d' % i, *s[0]) for i, s in enumerate(storms)]
    durs = [ctx.real('dur%d' % i, *s[1]) for i, s in enumerate(storms)]
    sg = cm.geom()
    df = cm.daily(ctx, n, start=start, sg=sg, prec=P, t_min=tmin, t_max=tmax,
                  t_pk=pks, dur=durs)
    out = disaggregate(df, cm.params(
        time_step=ts, period_ending=pend,
        prec_type=opt or ('mix' if mix else 'triangle')), sg)
    res = cm.col_of(out, 'prec')
    spd = 1440 // ts
    ctx.observe('prec', res)
    basics(ctx, res, P, ts)
    for d in range(n):
        if mix and bool(tmin[d] < 0):
            ctx.prove_close(res[d * spd:(d + 1) * spd], [P[d] / spd] * spd,
                            'mix: even rain on freezing days')
        else:
            storm_shape(ctx, res, d, spd, ts, pks[d], durs[d], P[d])


def whole_run(ctx, ts, prec_type, pend=False, method='passthrough'):
    P = {}

    def prec(t, i, j):
        return P.setdefault((t, i, j), ctx.real('P%d_%d' % (t, j), 0, 500))
    w = e2e.World(ctx, days=2, shape=(1, 2), forcing=e2e.full(prec=prec))
    (o,) = w.run(time_step=ts, prec_type=prec_type,
                 period_ending=pend).values()
    v = o['vars']['prec']['data']
    spd = 1440 // ts
    for j in range(2):
        basics(ctx, list(v[:, 0, j]), [P[t, 0, j] for t in range(2)], ts)


NOON = ((720.0, 721.5), (240.0, 242.0))
DAWN = ((3.0, 4.5), (119.0, 121.0))
DUSK = ((1437.5, 1439.0), (180.0, 182.0))
LONG = ((600.0, 601.0), (1438.0, 1440.0))
TINY = ((899.0, 901.0), (4.0, 6.0))
EDGE = ((60.0, 61.0), (120.0, 122.0))
HUGE = ((300.0, 300.5), (1700.0, 1701.0))


def cases(tier):
    c = [Case('uniform-60', uniform, n=3, ts=60),
         Case('uniform-360', uniform, n=4, ts=360, start='2004-02-27'),
         Case('uniform-30-period-ending', uniform, n=2, ts=30, pend=True),
         Case('uniform-1', uniform, n=2, ts=1),
         Case('uniform-upper', uniform, n=2, ts=180, opt='UNIFORM'),
         Case('uniform-utc-east', uniform, n=2, ts=60, utc=True,
              lon=(29.5, 30.5)),
         Case('uniform-utc-west', uniform, n=2, ts=180, utc=True,
              lon=(-120.3, -119.8)),
         Case('mix', triangle, ts=60, mix=True, storms=[NOON, EDGE],
              budget=150),
         Case('mix-upper', triangle, ts=180, mix=True, storms=[DUSK],
              opt='MIX'),
         Case('run', whole_run, ts=360, prec_type='uniform'),
         Case('run-period-ending', whole_run, ts=180, prec_type='uniform',
              pend=True)]
    for nm, s, ts in [('noon', NOON, 60), ('dawn', DAWN, 30),
                      ('dusk', DUSK, 60), ('long', LONG, 180),
                      ('tiny', TINY, 60), ('edge', EDGE, 60),
                      ('huge', HUGE, 60)]:
        c.append(Case('triangle-' + nm, triangle, ts=ts, mix=False,
                      storms=[s]))
    c.append(Case('triangle-two-days', triangle, ts=60, mix=False,
                  storms=[((700.2, 700.4), (300.1, 300.3)),
                          ((400.0, 400.5), (60.0, 60.5))],
                  start='2004-02-28', pend=True))
    if tier == 'thorough':
        for ts in (1, 2, 5, 10, 15, 20, 45, 90, 120, 240):
            c.append(Case('uniform-t%d' % ts, uniform, n=2 if ts < 10 else 8,
                          ts=ts, budget=300))
        for lon in (-179.9, -90.1, -0.4, 0.0, 0.3, 44.9, 120.2, 179.5, 190.,
                    355.):
            c.append(Case('uniform-utc%g' % lon, uniform, n=2, ts=60,
                          utc=True, lon=(lon, lon + 2), budget=300))
        for pk in (0, 5, 240, 480, 719.5, 960, 1200, 1380, 1435):
            for du in (4, 30, 200, 700, 1300, 2000):
                c.append(Case('triangle-%g-%g' % (pk, du), triangle, ts=60,
                              mix=False, budget=300,
                              storms=[((pk, pk + 3), (du, du + 4))]))
        c.append(Case('mix-3', triangle, ts=30, mix=True, budget=600,
                      storms=[NOON, DUSK, DAWN]))
    return c
