"""C20: constant variables override the forcing everywhere."""
import os

import numpy as np

from symx.runner import Case
from . import cells as cl, e2e

ASSUMPTIONS = []
BOUNDS = {'constants': 'every value in the range of the variable',
          'other inputs': 'every value (those that do not set the shape of '
          'the day)', 'cells': '1..4', 'days': '2..3'}
OUTSIDE = ['constants for coordinates or elevation']

RANGE = {'prec': (0, 400), 'wind': (0, 60), 'tskc': (0, 1),
         'shortwave': (1, 500), 'pet': (0, 20), 't_day': (-20, 30),
         'vapor_pressure': (100, 900), 'longwave': (50, 500),
         't_min': (-20, 0), 't_max': (5, 40), 'tfmax': (.2, .9)}
DAY = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave',
       'tskc', 'pet', 'wind', 'daylength']
SUB = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure',
       'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
FREE = ('prec', 'wind', 'tskc', 'shortwave', 'pet')


def names_of(ts):
    return DAY if ts == 1440 else SUB


def forcing(ctx, S, free=FREE):
    def g(k):
        def f(t, *i):
            key = (k, t) + i
            if key not in S:
                S[key] = ctx.real('%s_%d_%s' % (
                    k, t, '_'.join(map(str, i))), *RANGE[k])
            return S[key]
        return f
    return e2e.full(**{k: g(k) for k in free})


def same(ctx, a, b, names, label, mask=None):
    ctx.prove(sorted(a) == sorted(b), 'the same files are written')
    for f in sorted(set(a) & set(b)):
        for k in names:
            x = np.asarray(a[f]['vars'][k]['data'], dtype=object)
            y = np.asarray(b[f]['vars'][k]['data'], dtype=object)
            ctx.prove(x.shape == y.shape, 'the same shape is written')
            for i in np.ndindex(*x.shape[1:]):
                j = (slice(None),) + i
                if mask is not None and not mask[i[0]][i[1]] > 0:
                    continue
                ctx.prove_close(list(x[j]), list(y[j]), label)


def const(ctx, var, ts=1440, supplied=False, shape=(1, 2), value=None,
          given=None, mask=None, days=2, ints=False, method='passthrough',
          free=FREE, drop=(), ref_drop=(), fmt='netcdf', **kw):
    """var: name, or {name: value or None for any}."""
    cs = dict(var) if isinstance(var, dict) else {var: value}
    S, V = {}, {}
    for k, v in cs.items():
        V[k] = ctx.real('const_' + k, *RANGE[k]) if v is None else v
    text = {k: (given if given is not None else V[k]) for k in V}

    def world(tag, hold):
        fl = forcing(ctx, S, free)
        for k in drop:
            fl.pop(k, None)
        for k in cs:
            if hold:
                fl[k] = V[k]
            elif not supplied:
                fl.pop(k, None)

        def whole(w):
            if ints:
                for k in list(w.met):
                    if k not in cs and w.met[k].dtype != object and \
                            np.all(w.met[k].values % 1 == 0):
                        w.met[k] = w.met[k].astype('int32')
        return e2e.World(ctx, days=days, shape=shape, forcing=fl, tag=tag,
                         mask=mask, post=whole, objects=not ints,
                         start=kw.get('start', '2001-03-01'))
    names = [k for k in names_of(ts)
             if k not in drop or k in cs]
    args = dict(time_step=ts, method=method, out_vars={
        k: {'out_name': k} for k in names})
    args.update({k: v for k, v in kw.items() if k != 'start'})
    w = world('const', False)
    if fmt == 'data':
        w.build()
        args2 = dict(args, forcing_fmt='data', forcing=w.met)
        a = run_data(w, args2, text)
    else:
        a = w.run(constant_vars=text, **args)
    b = world('held', True).run(**args)
    same(ctx, a, b, names, 'as with a forcing that holds the constant',
         mask)
    # and the value itself, where it is written as it is
    for k in cs:
        if k in names and (ts == 1440 or k in ('wind', 'tskc')):
            m = np.ones(shape) if mask is None else np.asarray(mask)
            for f in a:
                d = np.asarray(a[f]['vars'][k]['data'], dtype=object)
                for i in np.ndindex(*shape):
                    if m[i] > 0:
                        x = list(d[(slice(None),) + i])
                        ctx.prove_close(x, [V[k]] * len(x),
                                        'the constant on every day and in '
                                        'every cell')


def run_data(w, args, text):
    build = w.build
    w.build = lambda: w
    try:
        return w.run(constant_vars=text, **args)
    finally:
        w.build = build


def per_cell(ctx, kind, var='wind', supplied=False, ts=1440):
    """Constants next to text or binary forcings."""
    lats, lons = (48.25, 48.5), (-120.5, -120.25)
    V = ctx.real('const', *RANGE[var])
    order = ['prec', 't_max', 't_min'] + ([var] if supplied else [])
    fixed = dict(prec=2.0, t_max=9.0, t_min=-3.5, wind=4.0, tskc=0.5,
                 shortwave=130.0)
    w = e2e.World(ctx, days=2, shape=(2, 2), coords=dict(lat=lats, lon=lons))
    d = cl.place(ctx, w)
    P, files = {}, []
    for i, j in np.ndindex(2, 2):
        rows, data = [], []
        for t in range(2):
            if kind == 'ascii':
                P[t, i, j] = ctx.real('p%d%d%d' % (t, i, j), 0, 300)
                rows.append([P[t, i, j]] + [fixed[k] for k in order[1:]])
            else:
                b = cl.word(ctx, 'p%d%d%d' % (t, i, j))
                P[t, i, j] = cl.value(ctx, b, 40.0, False)
                data += b + cl.words(ctx, [round(fixed[k] * 100)
                                           for k in order[1:]])
        p = os.path.join(d, 'data_%r_%r' % (lats[i], lons[j]))
        files.append(cl.text(ctx, p, rows) if kind == 'ascii'
                     else cl.binary(ctx, p, data))
    fv = {k: k if kind == 'ascii' else '40 unsigned' if k == 'prec'
          else '100 signed' for k in order}
    rest = {k: v for k, v in e2e.FULL.items() if k not in order and k != var}
    rest[var] = V
    (o,) = w.run(forcing_fmt=kind, forcing=files, forcing_vars=fv,
                 method='passthrough', time_step=ts, constant_vars=rest,
                 out_vars={k: {'out_name': k} for k in
                           ('prec', 't_min', 't_max', 'wind', 'tskc')
                           if ts == 1440 or k[:2] != 't_'}).values()
    for i, j in np.ndindex(2, 2):
        g = lambda k: list(o['vars'][k]['data'][:, i, j])
        n = 1440 // ts
        ctx.prove_close(g(var), [V] * (2 * n), 'the constant on every day '
                        'and in every cell')
        ctx.prove_close(g('prec'), [P[t, i, j] / n for t in range(2)
                                    for _ in range(n)],
                        'other variables do not change')
        if ts == 1440:
            for k in ('t_min', 't_max'):
                ctx.prove_close(g(k), [fixed[k]] * 2,
                                'other variables do not change')


def cases(tier):
    c = [Case('daily-%s' % k, const, var=k, supplied=n % 2 == 0)
         for n, k in enumerate(('wind', 'tskc', 'prec', 'shortwave', 'pet',
                                't_day', 'vapor_pressure', 't_min', 't_max'))]
    c += [Case('daily-%s-other' % k, const, var=k, supplied=n % 2 == 1)
          for n, k in enumerate(('wind', 'tskc', 'prec', 'shortwave'))]
    c += [Case('sub-daily-%s' % k, const, var=k, ts=360, supplied=n % 2 == 1)
          for n, k in enumerate(('wind', 'tskc', 'prec', 'shortwave',
                                 'vapor_pressure', 'longwave'))]
    c += [Case('two', const, var={'wind': None, 'tskc': None}, ts=360),
          Case('two-supplied', const, var={'prec': None, 'wind': None},
               supplied=True, ts=360),
          Case('four', const, var={'t_min': None, 't_max': None,
                                   'tskc': None, 'pet': None}),
          Case('extremes', const, var={'t_min': 10.0, 't_max': 30.0}, ts=180,
               supplied=True),
          Case('masked', const, var='wind', mask=[[1, 0], [0, 1]],
               shape=(2, 2), supplied=True),
          Case('chunks', const, var='wind', shape=(2, 2),
               chunks={'lat': 1, 'lon': 1}, ts=360),
          Case('utc', const, var='wind', utc_offset=True, ts=360,
               supplied=True),
          Case('mtclim', const, var='wind', ts=360, method='mtclim',
               free=('wind',), drop=('shortwave', 'vapor_pressure', 'tskc',
                                     't_day', 'tfmax', 'pet', 'tdew'),
               budget=120),
          Case('integers', const, var='wind', value=2.75, given='2.75',
               ints=True, free=('tskc',)),
          Case('integers-any', const, var='wind', ints=True,
               free=('tskc', 'pet')),
          Case('data', const, var='wind', fmt='data'),
          Case('data-supplied', const, var='prec', fmt='data', ts=360,
               supplied=True),
          Case('ascii', per_cell, kind='ascii'),
          Case('ascii-supplied', per_cell, kind='ascii', supplied=True,
               ts=360),
          Case('binary', per_cell, kind='binary', var='tskc'),
          Case('binary-supplied', per_cell, kind='binary', supplied=True)]
    for n, (s, v) in enumerate([('3', 3.0), ('0.350', .35), ('1e1', 10.0),
                                (' 2.5 ', 2.5), ('.5', .5), ('2.', 2.0),
                                (4, 4.0), ('0', 0.0), ('-1.5E-1', -.15),
                                ('1_0', 10.0)]):
        c.append(Case('notation-%d' % n, const, var='wind', value=v, given=s,
                      free=('prec',), supplied=n % 2 == 0))
    if tier == 'thorough':
        for k in RANGE:
            for ts in (1440, 360, 60):
                if k in ('t_min', 't_max') and ts < 1440:
                    continue
                for sup in (False, True):
                    c.append(Case('%s-%d-%d' % (k, ts, sup), const, var=k,
                                  ts=ts, supplied=sup, days=3, shape=(2, 2),
                                  budget=300))
    return c
