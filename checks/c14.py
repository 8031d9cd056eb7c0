"""C14: a run is not affected by earlier or concurrent runs."""
import copy
import os

import numpy as np
import pandas as pd

from symx.runner import Case
from . import conf as cf, e2e

ASSUMPTIONS = ['the random parts of a written file (time of creation) are '
               'fixed when the package is imported']
BOUNDS = {'wind': '0..60 m/s', 'precipitation': '0..400 mm', 'shortwave':
          '0..500 W m-2', 'vapor pressure': '50..1200 Pa', 'constants':
          '0..60', 'runs': '2 configurations, up to 4 runs in a history'}
OUTSIDE = ['histories of more than four runs', 'threads that change the '
           'configuration of a run while it executes']


def make(ctx, tag, S, shape=(1, 1), days=2, start='2001-03-01', drop=(),
         params=None, names=None, free=('wind', 'prec', 'shortwave',
                                        'vapor_pressure'), pre='b', **kw):
    rng = dict(wind=(0, 60), prec=(0, 400), shortwave=(0, 500),
               vapor_pressure=(50, 1200))

    def g(k):
        def f(t, *i):
            q = (pre, k, t) + i
            if q not in S:
                S[q] = ctx.real('%s_%s%d_%s' % (
                    pre, k, t, '_'.join(map(str, i))), *rng[k])
            return S[q]
        return f
    f = e2e.full(**{k: g(k) for k in free})
    for k in drop:
        f.pop(k)
    kw.setdefault('objects', True)
    w = e2e.World(ctx, days=days, start=start, shape=shape, forcing=f,
                  tag=tag, **kw)
    w.over = params or {}
    w.names = names or {}
    return w


def config(w):
    p = w.config()
    p.update(copy.deepcopy(w.over))
    fv = w.names.get('forcing')
    if fv:        # stored names of the forcings
        w.met = w.met.rename({k: v for k, v in fv.items() if k in w.met})
        p['forcing'] = w.store('met.nc', w.met)
        p['forcing_vars'] = {fv.get(k, k): k for k in p['forcing_vars']}
    for k in w.names.get('gone', ()):
        p.pop(k)
    return p


OUT = {k: {'out_name': k} for k in ('wind', 'prec', 'shortwave', 'temp',
                                    'rel_humid', 'longwave')}
DAY = {k: {'out_name': k} for k in ('wind', 'prec', 'shortwave', 't_min',
                                    'vapor_pressure', 'daylength')}
UNITS = {'wind': {'out_name': 'w', 'units': 'm s-1'},
         'prec': {'out_name': 'p', 'units': 'mm s-1'},
         'temp': {'out_name': 't', 'units': 'K'},
         'shortwave': {'out_name': 's', 'units': 'J m-2 s-1'},
         'longwave': {'out_name': 'l'},
         'rel_humid': {'out_name': 'rh', 'units': 'fraction'},
         'air_pressure': {'out_name': 'ap', 'units': 'hPa'}}


def units():
    """Another unit than the default for every variable that has one."""
    from metsim.units import converters
    import metsim.metsim as mm
    out = {}
    for k in UNITS:
        other = [u for u in converters[k] if u != mm.attrs[k]['units']]
        out[k] = dict(out_name='x_' + k)
        if other:
            out[k]['units'] = other[0]
    return out


MONTHS = dict(domain_extra={'dur': (('month',), np.full((12, 1, 1), 300.0)),
                            't_pk': (('month',), np.full((12, 1, 1), 700.0))})


def others(ctx):
    """Configurations of the run that comes between: name -> (world
    arguments, whether it is expected to succeed)."""
    P = lambda **k: dict(params=k)
    return {
        'units': lambda: P(out_vars=units()),
        'unknown-units': lambda: P(out_vars={
            'prec': {'out_name': 'prec', 'units': 'furlong'},
            'temp': {'out_name': 'temp', 'units': 'R'}}),
        'names': lambda: P(out_vars={k: {'out_name': k + '_other'}
                                     for k in OUT}),
        'swapped': lambda: P(out_vars={'wind': {'out_name': 'prec'},
                                       'prec': {'out_name': 'wind'}}),
        'utc': lambda: dict(coords={'lon': [-75.0]}, params=dict(
            utc_offset=True, out_vars=OUT)),
        'ending': lambda: P(period_ending=True, out_freq='D', out_vars=OUT),
        'daily': lambda: P(time_step=1440, out_vars=DAY),
        'hourly': lambda: P(time_step=60, out_vars={
            'wind': {'out_name': 'wind'}}),
        'precise': lambda: dict(params=dict(
            out_precision='f4', out_vars={'temp': {'out_name': 'temp'}}),
            free=(), objects=False),
        'calendar': lambda: dict(
            post=lambda w: w.met['time'].encoding.update(calendar='noleap'),
            params=dict(calendar='noleap', out_vars=OUT)),
        'mtclim': lambda: dict(
            drop=('shortwave', 'vapor_pressure', 'tskc', 't_day', 'tfmax',
                  'pet', 'tdew'), free=('wind',), days=3,
            params=dict(method='mtclim', out_vars=OUT, tdew_tol=1e-3,
                        rain_scalar=.5, tday_coef=.3, sw_prec_thresh=2.,
                        tmax_daylength_fraction=.5, lapse_rate=.004)),
        'daylight': lambda: P(sw_averaging='daylight', time_step=1440,
                              out_vars=DAY),
        'storm': lambda: dict(MONTHS, free=('wind',), params=dict(
            prec_type='triangle', out_vars=OUT)),
        'types': lambda: P(lw_type='TVA', lw_cloud='DEFAULT', out_vars=OUT),
        'constants': lambda: P(constant_vars={
            'wind': ctx.real('c_wind', 0, 60), 'tskc': 0.9}, out_vars=OUT),
        'place': lambda: dict(shape=(2, 1), coords={'lat': [40.0, 40.5]},
                              elev=lambda i, j: 2500.0 - 100 * i,
                              params=dict(out_vars=OUT, lapse_rate=.005)),
        'lapse': lambda: P(lapse_rate=.003, out_vars=OUT),
        'chunks': lambda: dict(shape=(2, 2), params=dict(
            chunks={'lat': 1, 'lon': 1}, out_vars=OUT)),
        'dates': lambda: dict(start='2003-07-10', days=3,
                              params=dict(out_vars=OUT)),
        'data': lambda: P(out_vars=OUT, forcing_fmt='data'),
        'stored': lambda: dict(names={'forcing': {
            'prec': 'wind', 'wind': 'prec', 't_min': 'tn'}},
            params=dict(out_vars=OUT)),
        'extra': lambda: P(out_vars=OUT, project='x', title='Mine',
                           comment='hello', institution='Elsewhere',
                           source='other.py', units='K'),
        'default-outputs': lambda: dict(names={'gone': ('out_vars',)},
                                        params={}),
        'units-dim': lambda: dict(dims=('hru',), shape=(2,),
                                  params=dict(out_vars=OUT)),
        'refused': lambda: P(out_vars=OUT, method='none', lw_type='x',
                             out_precision='f2', time_step=7),
        'failing': lambda: dict(params=dict(out_vars=OUT), post=bad),
    }


def bad(w):
    """A state with extreme temperatures the wrong way round fails while the
    run is executed."""
    w.met['t_min'] = w.met['t_max'] + 1


def subjects():
    """Configurations of the run whose files are compared."""
    P = lambda **k: dict(params=k)
    return {
        'plain': lambda: P(out_vars=OUT),
        'bare': lambda: dict(names={'gone': ('out_vars',)}, params={}),
        'daily': lambda: P(out_vars=DAY, time_step=1440),
        'units': lambda: P(out_vars=units()),
        'many': lambda: dict(shape=(2, 1), params=dict(
            out_vars=OUT, out_freq='D', chunks={'lat': 1})),
        'mtclim': lambda: dict(
            drop=('shortwave', 'vapor_pressure', 'tskc', 't_day', 'tfmax',
                  'pet', 'tdew'), free=('wind',), days=3,
            params=dict(method='mtclim', out_vars=OUT)),
        'storm': lambda: dict(MONTHS, free=('wind',), params=dict(
            prec_type='mix', out_vars=OUT)),
        'data': lambda: P(out_vars=OUT, forcing_fmt='data'),
        'utc': lambda: dict(coords={'lon': [-75.0]}, params=dict(
            utc_offset=True, out_vars=OUT)),
        'constants': lambda: dict(drop=('wind',), free=('prec',), params=dict(
            constant_vars={'wind': 3.0}, out_vars=OUT)),
    }


def ready(w, p):
    if w.over.get('forcing_fmt') == 'data':
        p['forcing'] = w.met
    return p


def clean(w, v):
    return repr(v).replace(w.dir, '@')


def same(ctx, w, got, ref, wr):
    """The files of world w are those of the reference world."""
    ctx.prove(sorted(got) == sorted(ref), 'the same files')
    if sorted(got) != sorted(ref):
        return
    for f in ref:
        a, b = got[f], ref[f]
        ctx.prove({k: clean(w, v) for k, v in a['attrs'].items()} ==
                  {k: clean(wr, v) for k, v in b['attrs'].items()},
                  'the same global attributes')
        ctx.prove(a['dims'] == b['dims'] and sorted(a['vars']) ==
                  sorted(b['vars']), 'the same variables')
        if sorted(a['vars']) != sorted(b['vars']):
            continue
        for n in b['vars']:
            x, y = a['vars'][n], b['vars'][n]
            ctx.prove((x['dims'], x['dtype']) == (y['dims'], y['dtype']),
                      'the same dimensions and types')
            ctx.prove({k: clean(w, v) for k, v in x['attrs'].items()} ==
                      {k: clean(wr, v) for k, v in y['attrs'].items()},
                      'the same attributes')
            if np.shape(x['data']) != np.shape(y['data']):
                ctx.prove(False, 'the same shape')
                continue
            for u, v in zip(np.asarray(x['data'], dtype=object).ravel(),
                            np.asarray(y['data'], dtype=object).ravel()):
                nu, nv = ctx.isnum(u), ctx.isnum(v)
                if nu is True and nv is True:
                    ctx.prove(u == v, 'the same values')
                else:
                    ctx.prove(ctx.band(nu, nv) if ctx.sym and (
                        nu is not False and nv is not False) else
                        nu == nv, 'missing in both or neither')


def refused(fn):
    try:
        return fn()
    except Exception as e:
        if type(e).__name__ in ('Unsupported', 'Undecided', 'Budget'):
            raise
        return None


def history(ctx, b, a, when):
    from metsim.metsim import MetSim
    import metsim.metsim as mm
    S = {}
    B = subjects()[b]
    ctx.fresh()
    wr = make(ctx, 'ref', S, **B())
    MetSim(ready(wr, config(wr))).run()
    ref = wr.outputs()
    ctx.prove(len(ref) > 0, 'files are written')

    ctx.fresh()
    A = others(ctx)[a]
    ok = a not in ('refused', 'failing')

    def between(run=True, n=[0]):
        n[0] += 1
        wa = make(ctx, 'a%d' % n[0], S, pre='a', **A())

        def go():
            ms = MetSim(ready(wa, config(wa)))
            if run:
                ms.run()
            return ms
        r = go() if ok else refused(go)
        return r
    w = make(ctx, 'new', S, **B())
    if when == 'before':
        between()
        MetSim(ready(w, config(w))).run()
    elif when == 'twice':
        # the caller keeps one dictionary
        p = ready(w, config(w))
        refused(lambda: MetSim(p).run()) if not ok else MetSim(p).run()
        between()
        MetSim(p).run()
    elif when == 'set up':
        p = ready(w, config(w))
        ms = MetSim(p)
        between(run=False)
        ms.run()
    elif when == 'waiting':
        p = ready(w, config(w))
        ms = MetSim(p)
        between()
        ms.run()
    elif when == 'within':
        if not hasattr(mm, 'wrap_run_slice'):
            if not ctx.sym:
                return
            from symx.sym import Unsupported
            raise Unsupported('the steps of a run have other names')
        keep = mm.wrap_run_slice
        busy = []

        def hooked(*x, **k):
            if not busy:
                busy.append(1)
                try:
                    between()
                finally:
                    busy.pop()
            return keep(*x, **k)
        ms = MetSim(ready(w, config(w)))
        mm.wrap_run_slice = hooked
        try:
            ms.run()
        finally:
            mm.wrap_run_slice = keep
    elif when == 'file':
        # the other run comes from a configuration file
        wa = make(ctx, 'a', S, pre='a', **A())
        pa = config(wa)
        d = dict(MetSim={k: v for k, v in pa.items() if not isinstance(
            v, dict)}, **{k: v for k, v in pa.items()
                          if isinstance(v, dict) and (v or k == 'chunks')})
        for k in ('start', 'stop'):
            d['MetSim'][k] = pd.Timestamp(pa[k]).strftime('%Y-%m-%d')
        d['MetSim'].pop('verbose')
        MetSim(cf.read(ctx, cf.yml(d))).run()
        MetSim(ready(w, config(w))).run()
    same(ctx, w, w.outputs(), ref, wr)


def repeated(ctx, b):
    """One dictionary and one data set for two runs, both left as given."""
    from metsim.metsim import MetSim
    S = {}
    w = make(ctx, 'w', S, **subjects()[b]())
    p = ready(w, config(w))
    had = {k: clean(w, v) for k, v in p.items() if k != 'out_vars' and
           k != 'forcing'}
    names = {k: v['out_name'] for k, v in p.get('out_vars', {}).items()}
    asked = {k: v['units'] for k, v in p.get('out_vars', {}).items()
             if 'units' in v}
    data = w.met.copy(deep=True)
    MetSim(p).run()
    one = w.outputs()
    ctx.prove({k: clean(w, v) for k, v in p.items() if k != 'out_vars' and
               k != 'forcing'} == had, 'the configuration is left alone')
    ctx.prove({k: v['out_name'] for k, v in p.get('out_vars', {}).items()} ==
              names and asked == {
                  k: v['units'] for k, v in p.get('out_vars', {}).items()
                  if k in asked}, 'the outputs asked for are left alone')
    ctx.prove(sorted(w.met.variables) == sorted(data.variables) and list(
        w.met['time'].values) == list(data['time'].values),
        'the data are left alone')
    for k in data.data_vars:
        if k in w.met:
            for u, v in zip(w.met[k].values.ravel(), data[k].values.ravel()):
                ctx.prove(u == v, 'the data are left alone')
    MetSim(p).run()
    same(ctx, w, w.outputs(), one, w)


WHEN = ('before', 'twice', 'set up', 'waiting', 'within')


def cases(tier):
    c = []
    B, A = list(subjects()), list(others(None))
    for i, b in enumerate(B):
        c.append(Case('repeat-%s' % b, repeated, b=b, budget=300))
        for j, a in enumerate(A):
            for k, wh in enumerate(WHEN):
                if a in ('failing', 'refused') and wh == 'set up':
                    continue
                if tier == 'quick' and b != 'plain' and (i + j + k) % (
                        2 if b == 'bare' else 7):
                    continue
                c.append(Case('%s-%s-%s' % (b, wh.replace(' ', ''), a),
                              history, b=b, a=a, when=wh, budget=300))
        for a in ('units', 'names', 'extra', 'types', 'ending'):
            if tier == 'thorough' or b in ('plain', 'bare'):
                c.append(Case('%s-file-%s' % (b, a), history, b=b, a=a,
                              when='file', budget=300))
    return c
