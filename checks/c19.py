"""C19: passed-through variables reach the output unchanged."""
import itertools

import numpy as np

from symx.runner import Case
from . import c07, c20, e2e

ASSUMPTIONS = ['supplied shortwave is an average over the whole day (the '
               'daylight convention is judged by C02)']
BOUNDS = {'supplied variables': 'every subset of t_day, tfmax, tskc, pet, '
          'tdew, vapor_pressure', 'values': 'every value in the range of the '
          'quantity, zero included',
          'days': '1..3', 'cells': '1..4'}
OUTSIDE = ['a supplied day length']

OPT = ('t_day', 'tfmax', 'tskc', 'pet', 'tdew', 'vapor_pressure')
RANGE = dict(c20.RANGE, vapor_pressure=(0, 6000), pet=(-1, 20), t_min=(-30, 10),
             t_max=(11, 45), t_day=(-20, 40), wind=(-5, 80),
             shortwave=(0, 900), tdew=(-30, 30))


def series(ctx, S, names):
    def g(k):
        def f(t, *i):
            key = (k, t) + i
            if key not in S:
                S[key] = ctx.real('%s_%d_%s' % (
                    k, t, '_'.join(map(str, i))), *RANGE[k])
            return S[key]
        return f
    return {k: g(k) for k in names}


def daily(ctx, free, drop=(), shape=(1, 2), days=3, **kw):
    """The daily output repeats what is supplied."""
    S = {}
    fl = e2e.full(**series(ctx, S, free))
    for k in drop:
        del fl[k]
    w = e2e.World(ctx, days=days, shape=shape, forcing=fl,
                  start=kw.pop('start', '2001-03-01'))
    names = [k for k in ('t_min', 't_max', 't_day', 'prec', 'vapor_pressure',
                         'shortwave', 'tskc', 'pet', 'wind') if k in fl]
    (o,) = w.run(time_step=1440, method='passthrough',
                 out_vars={k: {'out_name': k} for k in names}, **kw).values()
    for i in np.ndindex(*shape):
        for k in names:
            got = list(o['vars'][k]['data'][(slice(None),) + i])
            want = [S.get((k, t) + i, e2e.FULL[k])
                    for t in range(days)]
            ctx.prove_close(got, want, k + ' is written as it is supplied',
                            rtol=1e-9)


def estimated(ctx, drop, ts=1440):
    """What is not supplied is estimated in a whole run."""
    S = {}
    keep = [k for k in ('prec', 'wind', 'shortwave', 'tskc', 'pet')
            if k not in drop]
    fl = e2e.full(**series(ctx, S, keep))
    for k in drop:
        del fl[k]
    w = e2e.World(ctx, days=2, shape=(1, 1), forcing=fl, start='2001-06-15')
    names = ('t_day', 'tskc', 'pet', 'vapor_pressure', 'prec', 'wind',
             'shortwave', 't_min', 't_max', 'daylength')
    (o,) = w.run(time_step=1440, out_vars={k: {'out_name': k}
                                           for k in names}).values()
    V = {k: list(o['vars'][k]['data'][:, 0, 0]) for k in names}
    for t in range(2):
        v = {k: V[k][t] for k in names}
        for k in names:
            if k in fl:
                ctx.prove(ctx.close(v[k], S.get((k, t, 0, 0), e2e.FULL.get(
                    k)), rtol=1e-9), k + ' is written as it is supplied')
        if 't_day' in drop:
            ctx.prove(ctx.close(v['t_day'], 7.0 + 5.0 * .45),
                      't_day is estimated')
        p = S['prec', t, 0, 0]
        tf = c07.o_tfmax(ctx, 10.0, 10.0, p, 0.0, .75) \
            if 'tfmax' in drop else e2e.FULL['tfmax']
        if 'tskc' in drop:
            ctx.prove(ctx.close(v['tskc'], 1 - tf), 'tskc is estimated')
        if 'pet' in drop:
            ctx.prove(ctx.close(v['pet'], c07.o_pet(
                ctx, v['shortwave'], v['t_day'], v['daylength'], 500.0,
                .0065)), 'pet is estimated')
        if 'vapor_pressure' in drop:
            if 'tdew' in drop:
                sp = (1.0 * (89 - t) + p + (S['prec', 0, 0, 0] if t else 0)
                      ) / 90 * 365.25
                td = c07.o_tdew(ctx, v['pet'], 2.0, sp, 10.0)
            else:
                td = e2e.FULL['tdew']
            ctx.prove(ctx.close(v['vapor_pressure'], ctx.svp(td), rtol=1e-5),
                      'vapor pressure is estimated')


def subdaily(ctx, ts, drop=(), days=2, averaging=None, **kw):
    """Sub-daily output is disaggregated from what is supplied."""
    S = {}
    fl = e2e.full(**series(ctx, S, [k for k in (
        'prec', 'wind', 'shortwave', 'tskc') if k not in drop]))
    for k in drop:
        del fl[k]
    w = e2e.World(ctx, days=days, shape=(1, 2), forcing=fl)
    names = ('prec', 'wind', 'shortwave', 'tskc', 'temp', 'vapor_pressure')
    (o,) = w.run(time_step=ts, out_vars={k: {'out_name': k} for k in names},
                 **kw).values()
    n = 1440 // ts
    for i in np.ndindex(1, 2):
        V = {k: list(o['vars'][k]['data'][(slice(None),) + i]) for k in names}
        for t in range(days):
            d = {k: v[t * n:(t + 1) * n] for k, v in V.items()}
            f = lambda k: S[(k, t) + i]
            ctx.prove_close(d['wind'], [f('wind')] * n, 'wind as supplied')
            if 'tskc' not in drop:
                ctx.prove_close(d['tskc'], [f('tskc')] * n,
                                'cloud as supplied')
            ctx.prove(ctx.close(ctx.sum(d['prec']), f('prec')),
                      'precipitation as supplied')
            ctx.prove(ctx.close(ctx.sum(d['shortwave']) / n, f('shortwave')),
                      'shortwave as supplied')
            ctx.prove(all(1.9 < float(x) < 13.1 for x in d['temp']),
                      'temperature within what is supplied')
            ctx.prove_close(d['vapor_pressure'], [.6] * n,
                            'vapor pressure as supplied (in kPa)', rtol=1e-5)


def missing(ctx, const, ts=1440):
    """Shortwave has to be supplied."""
    S = {}
    fl = e2e.full(**series(ctx, S, ('wind',)))
    del fl['shortwave']
    w = e2e.World(ctx, days=2, shape=(1, 1), forcing=fl)
    kw = {}
    if const:
        kw['constant_vars'] = {'shortwave': 140.0}
    try:
        o = w.run(time_step=ts, out_vars={
            k: {'out_name': k} for k in ('wind', 'shortwave')}, **kw)
        ok = True
    except Exception:
        ok = False
    ctx.prove(ok == const, 'shortwave has to be supplied')
    if const and ok:
        (o,) = o.values()
        got = list(o['vars']['shortwave']['data'][:, 0, 0])
        ctx.prove_close([ctx.sum(got) / len(got)], [140.0],
                        'constant shortwave counts as supplied')


def cases(tier):
    c = []
    subs = [s for n in range(7) for s in itertools.combinations(OPT, n)]
    for s in subs:
        c.append(Case('absent-' + ('+'.join(s) or 'none'), c07.absent,
                      missing=s, budget=60))
    c += [Case('default-cloud', c07.absent, lw_cloud='default',
               missing=('tskc', 'tfmax')),
          Case('daily-rain', daily, free=('prec', 'wind', 'tskc')),
          Case('daily-temperature', daily, free=('t_min', 't_max', 't_day'),
               shape=(1, 1)),
          Case('daily-radiation', daily, free=('shortwave', 'pet',
                                               'vapor_pressure')),
          Case('daily-everything', daily, shape=(1, 1), days=2, free=(
              't_min', 't_max', 't_day', 'prec', 'vapor_pressure',
              'shortwave', 'tskc', 'pet', 'wind')),
          Case('daily-no-wind', daily, free=('prec', 'tskc'),
               drop=('wind',)),
          Case('daily-winter', daily, free=('shortwave', 'pet'),
               start='2003-12-30'),
          Case('daily-utc', daily, free=('shortwave', 'wind'),
               utc_offset=True),
          Case('daily-ending', daily, free=('shortwave', 'tskc'),
               period_ending=True),
          Case('daily-chunks', daily, free=('shortwave', 'pet'),
               shape=(2, 2), chunks={'lon': 1}),
          Case('estimated-t_day', estimated, drop=('t_day',)),
          Case('estimated-cloud', estimated, drop=('tfmax', 'tskc'),
               budget=120),
          Case('estimated-pet', estimated, drop=('pet',)),
          Case('estimated-tdew', estimated, drop=('tdew', 'vapor_pressure')),
          Case('estimated-vapor', estimated, drop=('vapor_pressure',)),
          Case('estimated-most', estimated, budget=120,
               drop=('t_day', 'tskc', 'pet')),
          Case('sub-daily-360', subdaily, ts=360),
          Case('sub-daily-60', subdaily, ts=60),
          Case('sub-daily-180-tskc', subdaily, ts=180, drop=('tskc',)),
          Case('sub-daily-ending', subdaily, ts=360, period_ending=True),
          Case('missing', missing, const=False),
          Case('missing-sub-daily', missing, const=False, ts=360),
          Case('constant', missing, const=True),
          Case('constant-sub-daily', missing, const=True, ts=360)]
    if tier == 'thorough':
        for s in subs:
            for t in (-20.0, 20.0):
                c.append(Case('absent-%g-%s' % (t, '+'.join(s)), c07.absent,
                              missing=s, t0=t, t1=t + 3, n=2, budget=300))
        for s in (15, 20, 30, 45, 90, 120, 240):
            c.append(Case('sub-daily-t%d' % s, subdaily, ts=s, days=4,
                          budget=300))
    return c
