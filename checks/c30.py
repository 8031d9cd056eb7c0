"""C30: what is asked for does not change what is computed."""
import numpy as np

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'t_min': '-3..3 C', 't_max': '9..16 C', 'precipitation':
          '0..300 mm', 'shortwave': '0..500 W m-2', 'vapor pressure':
          '300..1200 Pa', 'cloud': '0..1', 'wind': '0..60 m/s',
          'choices': 'every variable on its own, all in turned order, other '
          'names, other units of the others, precision, splitting into '
          'files, prefix, verbosity', 'days': '2..3', 'cells': '1..4'}
OUTSIDE = []
RANGE = dict(t_min=(-3, 3), t_max=(9, 16), prec=(0, 300),
             shortwave=(0, 500), vapor_pressure=(300, 1200), tskc=(0, 1),
             wind=(0, 60))
SUB = ('temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure',
       'rel_humid', 'spec_humid', 'air_pressure', 'tskc', 'wind')
DAY = ('t_min', 't_max', 't_day', 'prec', 'shortwave', 'tskc', 'pet', 'wind',
       'vapor_pressure', 'daylength')
UNITS = dict(temp='K', prec='mm s-1', vapor_pressure='kPa', rel_humid=
             'fraction', air_pressure='Pa', tskc='%', t_min='K', t_max='K',
             t_day='K', pet='mm h-1')
EST = ('t_day', 'tskc', 'pet', 'tfmax', 'vapor_pressure', 'tdew')


def one(ctx, S, tag, names, free, drop, days, shape, mask=None, as_=None,
        units=None, coords=None, start='2001-03-01', ts=360, **kw):
    def g(k):
        def f(t, *i):
            q = (k, t) + i
            if q not in S:
                S[q] = ctx.real('%s_%s' % (k, '_'.join(map(str, q[1:]))),
                                *RANGE[k])
            return S[q]
        return f
    f = e2e.full(**{k: g(k) for k in free})
    for k in drop:
        f.pop(k, None)
    w = e2e.World(ctx, days=days, shape=shape, start=start, mask=mask,
                  forcing=f, objects=True, tag=tag, coords=coords)
    ov = {}
    for k in names:
        ov[k] = {'out_name': (as_ or {}).get(k, k)}
        if units and k in units:
            ov[k]['units'] = units[k]
    out = w.run(time_step=ts, out_vars=ov, **kw)
    r = {}
    for n in sorted(out):
        for k in names:
            v = out[n]['vars'].get(ov[k]['out_name'])
            ctx.prove(v is not None, 'what is asked for is written')
            if v is not None:
                r.setdefault(k, []).extend(list(v['data']))
        ctx.prove(len([v for v in out[n]['vars'] if v not in
                       ('time', 'lat', 'lon')]) == len(names),
                  'nothing else is written')
    return r


def go(ctx, free=('wind', 'prec', 'shortwave'), drop=(), days=2, shape=(1, 1),
       ts=360, names=None, ways=('alone', 'turned', 'named', 'units', 'split'),
       mask=None, **kw):
    S = {}
    names = list(names or (DAY if ts == 1440 else SUB))
    base = one(ctx, S, 'all', names, free, drop, days, shape, mask, ts=ts,
               **kw)
    runs = []
    for w in ways:
        if w == 'alone':
            runs += [('a_' + k, [k], {}) for k in names]
        elif w == 'pairs':
            runs += [('p_' + a, [a, b], {}) for a, b in
                     zip(names, names[1:] + names[:1])]
        elif w == 'turned':
            runs.append((w, names[::-1], {}))
        elif w == 'named':
            runs.append((w, names, dict(as_=dict(zip(
                names, names[1:] + names[:1])))))
        elif w == 'units':
            runs += [('u_' + k, names, dict(units={
                q: u for q, u in UNITS.items() if q in names and q != k},
                only=k)) for k in names]
        elif w == 'split':
            runs.append((w, names, dict(out_freq='D')))
        elif w == 'single':
            # half a unit in the last place, at most
            runs.append((w, names, dict(out_precision='f4', tol=1e-6)))
        elif w == 'loud':
            runs.append((w, names, dict(verbose=20, out_prefix='run_1')))
    for tag, ns, over in runs:
        over = dict(over)
        only, tol = over.pop('only', None), over.pop('tol', 1e-9)
        r = one(ctx, S, tag, ns, free, drop, days, shape, mask, ts=ts,
                **dict(kw, **over))
        for k in ns:
            if only and k != only:
                continue
            a, b = base[k], r.get(k, [])
            ctx.prove(len(a) == len(b), 'number of steps')
            for i in np.ndindex(*shape):
                if mask is not None and not mask[i[0]][i[1]]:
                    continue
                ctx.prove_close([v[i] for v in b], [v[i] for v in a],
                                '%s whatever else is asked for' % k,
                                rtol=tol)
    ctx.observe('any', base[names[1]][0].ravel()[0])


def cases(tier):
    e = dict(ts=1440, drop=EST, free=('shortwave', 'prec'))
    c = [Case('alone', go, ways=('alone',)),
         Case('alone-warm', go, ways=('alone', 'turned'), ts=720 // 4,
              free=('t_max', 'vapor_pressure'), days=1, budget=120),
         Case('pairs', go, ways=('pairs',), utc_offset=True,
              coords=dict(lon=[33.0])),
         Case('turned', go, ways=('turned', 'named'), ts=60),
         Case('named', go, ways=('named',), shape=(2, 1), days=1),
         Case('units', go, ways=('units',), days=1),
         Case('units-end', go, ways=('units',), period_ending=True, ts=180,
              days=1, free=('tskc', 'wind')),
         Case('split', go, ways=('split', 'loud'), days=3, ts=180),
         Case('single', go, ways=('single',), free=('wind', 'prec')),
         Case('daily', go, ts=1440),
         Case('daily-pairs', go, ts=1440, ways=('pairs', 'loud'), days=3,
              free=('t_min', 't_max', 'wind')),
         Case('daily-estimated', go, ways=('alone', 'turned', 'units'),
              names=[k for k in DAY if k != 'wind'], **e),
         Case('estimated', go, drop=EST, ways=('alone', 'units'), days=1,
              free=('wind',)),
         Case('mtclim', go, method='mtclim', drop=EST + ('shortwave',),
              free=('wind',), ways=('alone', 'turned', 'units'), days=1),
         Case('mtclim-daily', go, method='mtclim', ts=1440,
              drop=EST + ('shortwave',), free=('wind',),
              ways=('alone', 'turned', 'units', 'split')),
         Case('cells', go, shape=(2, 2), mask=[[1, 0], [1, 1]], days=1,
              ways=('alone', 'split'), ts=360),
         Case('cells-daily', go, shape=(2, 2), ts=1440, days=2,
              ways=('alone', 'named', 'split'), chunks={'lat': 1})]
    if tier == 'thorough':
        for ts in (60, 120, 180, 240, 360, 1440):
            for free in (('wind', 'prec'), ('tskc', 'vapor_pressure'),
                         ('t_min',), ('shortwave', 't_max')):
                c.append(Case('more-%d-%s' % (ts, free[0]), go, ts=ts,
                              free=free, days=3, budget=600, ways=(
                                  'alone', 'pairs', 'turned', 'named',
                                  'units', 'split', 'loud')))
    return c
