"""C27: every output file describes the run it holds."""
import numpy as np
import pandas as pd

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'numbers among the settings': 'every value in -1000..1000',
          'text among the settings': 'every text of up to six printable '
          'characters', 'wind': '0..60 m/s', 'cells': '1..12',
          'coordinates': 'regular, irregular, falling, in single and double '
          'precision and whole numbers'}
OUTSIDE = ['settings that are tables (the lists of variables)',
           'quotation marks, which are left out of the attributes']
TOLD = {'wind': ('m s-1', 'wind speed', 'wind_speed'),
        'prec': ('mm timestep-1', 'precipitation', 'precipitation'),
        'temp': ('C', 'air temperature', 'air_temperature')}


def world(ctx, S, days, shape, **kw):
    def f(t, *i):
        q = (t,) + i
        if q not in S:
            S[q] = ctx.real('w_%s' % '_'.join(map(str, q)), 0, 60)
        return S[q]
    return e2e.World(ctx, days=days, shape=shape, forcing=e2e.full(wind=f),
                     objects=True, **kw)


def same(ctx, a, v, label):
    if isinstance(v, str):
        ctx.prove(isinstance(a, str) and a == v, label)
    else:
        ctx.prove(ctx.close(a, v, rtol=1e-9, atol=1e-12), label)


def settings(ctx, nums=(), texts=(), fixed=None, chars=3, days=2, **kw):
    """Entries of a configuration are found among the attributes."""
    S = {}
    w = world(ctx, S, days, (1, 1))
    over = dict(fixed or {})
    for k in nums:
        over[k] = ctx.real(k, -1000, 1000)
    for k in texts:
        c = [ctx.int('%s%d' % (k, j), 32, 126) for j in range(chars)]
        for x in c:
            ctx.assume(ctx.band(ctx.bnot(x == 34), ctx.bnot(x == 39)))
        if ctx.sym:
            from symx import text as tx
            over[k] = tx.Text(c, 'a' * chars)
        else:
            over[k] = ''.join(chr(int(x)) for x in c)
    out = w.run(time_step=1440, out_vars={'wind': {'out_name': 'wind'}},
                **dict(over, **kw))
    for o in out.values():
        for k, v in over.items():
            ctx.prove(k in o['attrs'], '%s is recorded' % (
                k if k in (fixed or {}) else 'the entry'))
            if k in o['attrs']:
                same(ctx, o['attrs'][k], v, 'as it was given')


def period(ctx, days=3, start='2003-12-30', ts=360, when=None, **kw):
    """The period of the run is found among the attributes, whatever way it
    was given, and every file of a run has the same ones."""
    S = {}
    w = world(ctx, S, days, (1, 1), start=start)
    t0 = pd.Timestamp(start)
    t1 = t0 + pd.Timedelta(days=days - 1)
    over = when(t0, t1) if when else {}
    out = w.run(time_step=ts, out_vars={'wind': {'out_name': 'wind'}},
                **dict(over, **kw))
    ref = None
    for o in out.values():
        a = o['attrs']
        for k, t in (('start', t0), ('stop', t1)):
            ctx.prove(k in a and pd.Timestamp(a[k]).normalize() == t,
                      'first and last day are recorded')
        ctx.prove(int(a.get('time_step', -1)) == ts, 'step is recorded')
        ctx.prove(a.get('method') == 'passthrough', 'method is recorded')
        for k in ('title', 'source', 'history', 'institution'):
            ctx.prove(len(str(a.get(k, ''))) > 0, 'origin is recorded')
        for k in ('utc_offset', 'period_ending'):
            ctx.prove(str(a.get(k)) == str(bool(kw.get(k, False))),
                      'flags are recorded')
        s = {k: repr(v) for k, v in a.items()}
        ctx.prove(ref is None or ref == s, 'the files of a run are alike')
        ref = s
        v = o['vars']['time']
        ctx.prove(v['attrs'].get('calendar') == 'standard' and
                  v['dims'] == ('time',), 'axis of time')


def grid(ctx, shape=(2, 3), dims=('lat', 'lon'), coords=None, mask=None,
         names=('wind', 'prec', 'temp'), as_=None, ts=360, prec='f8',
         post=None, days=2, objects=True, **kw):
    """Dimensions, coordinates and variables."""
    S = {}
    w = world(ctx, S, days, shape, dims=dims, coords=coords, mask=mask,
              post=post)
    w.objects = objects
    if 'lat' not in dims:
        w.latlon = lambda *i: (40.0 + sum(i), 10.0 + 2 * sum(i))
    as_ = as_ or {}
    out = w.run(time_step=ts, out_precision=prec, out_vars={
        k: {'out_name': as_.get(k, k)} for k in names}, **kw)
    for o in out.values():
        dom = w.domain['mask'].dims
        n = o['dims'].get('time')
        ctx.prove(list(o['dims']) == ['time'] + list(dom) and all(
            o['dims'][d] == w.domain.sizes[d] for d in dom),
            'dimensions are those of the domain and time')
        ctx.prove(set(o['vars']) == {'time'} | set(dom) |
                  {as_.get(k, k) for k in names},
                  'variables are the axes and what was asked for')
        for d in dom:
            v = o['vars'].get(d)
            if v is None:
                continue
            want = np.asarray(w.domain[d].values)
            ctx.prove(v['dims'] == (d,) and len(v['data']) == len(want),
                      'axis of a dimension')
            ctx.prove([float(x) for x in v['data']] ==
                      [float(x) for x in want],
                      'coordinates are those of the domain')
        for k in names:
            v = o['vars'].get(as_.get(k, k))
            if v is None:
                continue
            ctx.prove(v['dims'] == ('time',) + tuple(dom),
                      'variables lie on time and the domain')
            ctx.prove(np.shape(v['data']) == (n,) + tuple(
                w.domain.sizes[d] for d in dom), 'variables are complete')
            ctx.prove(v['dtype'] == {'f8': 'float64', 'f4': 'float32'}[prec],
                      'the precision that was asked for')
            u, ln, sn = TOLD[k]
            a = v['attrs']
            ctx.prove(a.get('units') == u and
                      sn in str(a.get('standard_name')) and
                      ln in str(a.get('long_name')).lower(),
                      'variables are described')
            ctx.prove(all(q in a and np.isnan(float(a[q])) for q in (
                'missing_value', 'fill_value')), 'the missing value is told')
    if out:
        first = sorted(out)[0]
        k = as_.get('wind', 'wind')
        if k in out[first]['vars']:
            ctx.observe('w', np.asarray(
                out[first]['vars'][k]['data']).ravel()[0])


def single(w):
    for x in ('domain', 'met', 'st'):
        d = getattr(w, x)
        setattr(w, x, d.assign_coords({k: d[k].astype('float32')
                                       for k in w.dims}))


def cases(tier):
    c = [Case('numbers', settings, nums=('sw_prec_thresh', 'rain_scalar',
                                         'tday_coef', 'tdew_tol')),
         Case('numbers-more', settings, nums=('tmax_daylength_fraction',
                                              'realization')),
         Case('numbers-files', settings, nums=('rain_scalar', 'version'),
              days=4, out_freq='D'),
         Case('numbers-text', settings, fixed=dict(
             sw_prec_thresh='2', rain_scalar='0.5', tday_coef='0.25',
             tdew_tol='1e-4', tmax_daylength_fraction='0.5',
             lapse_rate='0.0062')),
         Case('texts', settings, texts=('note',), chars=6),
         Case('texts-more', settings, texts=('note', 'contact'), chars=2),
         Case('options', settings, fixed=dict(
             lw_type='tva', lw_cloud='default', prec_type='uniform',
             out_precision='f8', calendar='standard', method='passthrough',
             out_prefix='o', scheduler='single-threaded')),
         Case('options-capital', settings, fixed=dict(
             lw_type='PRATA', lw_cloud='CLOUD_DEARDORFF',
             prec_type='Uniform')),
         Case('option-list', settings, fixed=dict(lapse_rate=.007,
                                                  rain_scalar=1))]
    for i, k in enumerate(('given', 'slashes', 'dashes', 'record', 'stamps')):
        f = dict(given=None, slashes=lambda a, b: dict(
            start=a.strftime('%Y/%m/%d'), stop=b.strftime('%Y/%m/%d')),
            dashes=lambda a, b: dict(start=str(a.date()),
                                     stop=str(b.date())),
            record=lambda a, b: dict(start='forcing', stop='forcing'),
            stamps=lambda a, b: dict(start=a, stop=b))[k]
        c += [Case('period-' + k, period, when=f),
              Case('period-files-' + k, period, when=f, days=4, out_freq='D',
                   ts=(60, 180, 1440, 360, 120)[i]),
              Case('period-flags-' + k, period, when=f,
                   utc_offset=i % 2 == 0, period_ending=i % 3 != 0)]
    far = dict(lat=[-33.25, 12.0, 71.875], lon=[-179.5, -0.1, 3.0, 180.0])
    down = dict(lat=[60.0, 59.5], lon=[10.25, 10.125, 9.0])
    c += [Case('grid', grid), Case('grid-daily', grid, ts=1440,
                                   names=('wind', 'prec')),
          Case('grid-far', grid, shape=(3, 4), coords=far),
          Case('grid-down', grid, coords=down),
          Case('grid-turned', grid, dims=('lon', 'lat'), shape=(3, 2)),
          Case('grid-one', grid, shape=(1, 1)),
          Case('grid-mask', grid, mask=[[1, 0, 1], [0, 0, 1]],
               names=('wind', 'prec')),
          Case('grid-chunks', grid, chunks={'lat': 1, 'lon': 2}),
          Case('grid-large-chunks', grid, chunks={'lat': 10, 'lon': 10}),
          Case('grid-files', grid, days=3, out_freq='D', chunks={'lat': 1}),
          Case('grid-single', grid, prec='f4', objects=False),
          Case('grid-single-fine', grid, prec='f4', objects=False,
               coords=dict(lat=[40.1, 40.03125], lon=[10.3, 10.1, -33.7])),
          Case('grid-double-fine', grid, coords=dict(
              lat=[1 / 3., 2 / 3.], lon=[-1 / 7., 1 / 9., 200 / 3.])),
          Case('units-fine', grid, dims=('hru',), shape=(2,), prec='f4',
               objects=False, coords=dict(hru=[16777217, 3])),
          Case('grid-single-axes', grid, post=single, coords=down),
          Case('grid-names', grid, as_=dict(wind='WIND10', prec='temp',
                                            temp='Prec')),
          Case('units', grid, dims=('hru',), shape=(4,)),
          Case('units-numbers', grid, dims=('hru',), shape=(4,),
               coords=dict(hru=[101, 7, 55, 3])),
          Case('units-mask', grid, dims=('hru',), shape=(3,),
               mask=[0, 1, 1], chunks={'hru': 2}),
          Case('units-two', grid, dims=('y', 'x'), shape=(2, 2)),
          Case('units-two-chunks', grid, dims=('y', 'x'), shape=(3, 2),
               coords=dict(y=[2, 4, 8], x=[0.5, 0.25]), chunks={'y': 2})]
    if tier == 'thorough':
        for n in (1, 2, 3, 4, 5, 7, 8, 9):
            c.append(Case('texts-%d' % n, settings, texts=('note',), chars=n,
                          budget=300))
        for a in range(1, 5):
            for b in range(1, 5):
                c.append(Case('grid-%dx%d' % (a, b), grid, shape=(a, b),
                              chunks={'lat': 2, 'lon': 3}, budget=300))
    return c
