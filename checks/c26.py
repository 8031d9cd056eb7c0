"""C26: options that are left out act as their documented defaults."""
import numpy as np

from symx.runner import Case
from . import e2e

ASSUMPTIONS = []
BOUNDS = {'t_min': '-3..3 C', 't_max': '9..16 C', 'precipitation':
          '0..300 mm', 'shortwave': '0..500 W m-2', 'vapor pressure':
          '300..1200 Pa', 'cloud': '0..1', 'wind': '0..60 m/s',
          'options': 'each optional entry of the documentation on its own, '
          'and all of them together'}
OUTSIDE = ['the default precision, on which documentation and program '
           'differ', 'the default scheduler, which starts processes']
# as documented
DEFAULTS = dict(method='mtclim', out_prefix='forcing', sw_prec_thresh=0.0,
                rain_scalar=0.75, utc_offset=False, period_ending=False,
                lw_cloud='CLOUD_DEARDORFF', lw_type='PRATA', tdew_tol=1e-6,
                tmax_daylength_fraction=0.67, tday_coef=0.45,
                lapse_rate=0.0065, prec_type='uniform', calendar='standard',
                out_freq=None, chunks={}, start='forcing', stop='forcing',
                forcing_fmt='netcdf')
LISTED = ('temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure',
          'rel_humid')
RANGE = dict(t_min=(-3, 3), t_max=(9, 16), prec=(0, 300),
             shortwave=(0, 500), vapor_pressure=(300, 1200), tskc=(0, 1),
             wind=(0, 60))
EST = ('t_day', 'pet', 'tskc', 'tfmax', 'vapor_pressure', 'tdew')


def world(ctx, S, free, drop, tag, days, shape, **kw):
    def g(k):
        def f(t, *i):
            q = (k, t) + i
            if q not in S:
                S[q] = ctx.real('%s_%d_%s' % (
                    k, t, '_'.join(map(str, i))), *RANGE[k])
            return S[q]
        return f
    f = e2e.full(**{k: g(k) for k in free})
    for k in drop:
        f.pop(k, None)
    f.setdefault('prec', 1.5)
    return e2e.World(ctx, days=days, shape=shape, forcing=f, objects=True,
                     tag=tag, **kw)


def flat(out):
    r = {}
    for f in sorted(out):
        for k, v in out[f]['vars'].items():
            r.setdefault(k, []).extend(np.asarray(v['data']).ravel())
    return r


def go(ctx, gone, free=('wind', 'prec', 'shortwave'), drop=(), ts=360,
       days=3, names=None, shape=(1, 1), given=None, attrs=True, **kw):
    S = {}
    ov = {k: {'out_name': k} for k in names or ('temp', 'prec', 'shortwave',
                                                'wind')}
    runs = []
    for tag in ('left', 'told'):
        from metsim.metsim import MetSim
        w = world(ctx, S, free, drop, tag, days, shape, **kw)
        p = w.config()
        p.update(DEFAULTS)
        p.update(time_step=ts, out_vars=ov, method='passthrough')
        if 'start' not in gone:
            p.update(start=w.start.strftime('%Y/%m/%d'))
        p.update(given or {})
        if 'method' in gone:
            p['method'] = 'mtclim'
        if 'out_vars' in gone:
            p['out_vars'] = {k: {'out_name': k} for k in LISTED}
        if tag == 'left':
            for k in gone:
                p.pop(k)
        MetSim(p).run()
        runs.append(w.outputs())
    a, b = runs
    ctx.prove(sorted(a) == sorted(b), 'the same files')
    for f in set(a) & set(b):
        ctx.prove(set(a[f]['vars']) == set(b[f]['vars']),
                  'the same variables')
        for k in set(a[f]['vars']) & set(b[f]['vars']):
            x, y = a[f]['vars'][k], b[f]['vars'][k]
            ctx.prove(x['dims'] == y['dims'] and x['dtype'] == y['dtype'],
                      'the same kind of variable')
            ctx.prove({q: repr(v) for q, v in x['attrs'].items()} ==
                      {q: repr(v) for q, v in y['attrs'].items()},
                      'the same attributes')
            ctx.prove_close(list(np.asarray(x['data']).ravel()),
                            list(np.asarray(y['data']).ravel()),
                            '%s as with the documented default' % k,
                            rtol=1e-13, atol=1e-13)
    ctx.prove(len(a) > 0, 'files are written')
    ctx.observe('any', flat(a)[sorted(ov)[0] if 'out_vars' not in gone else
                               'prec'][0])


def cases(tier):
    one = lambda k, **kw: Case('no-' + k, go, gone=(k,), **kw)
    day = ('t_day', 'tskc', 'pet', 'shortwave')
    c = [one('method', free=('wind', 'shortwave'), drop=EST, days=2,
             names=('shortwave', 'vapor_pressure', 'wind')),
         one('out_prefix', days=2), one('utc_offset', coords=dict(lon=[75.0])),
         one('period_ending', ts=180), one('prec_type', ts=60),
         one('sw_prec_thresh', drop=EST, ts=1440, names=day,
             free=('shortwave', 'prec')),
         one('rain_scalar', drop=EST, ts=1440, names=day,
             free=('shortwave', 'prec')),
         one('tday_coef', drop=EST, ts=1440, names=day, free=('shortwave',)),
         Case('no-tday-temperature', go, gone=('tday_coef',),
              drop=('t_day',), ts=1440, names=('t_day',),
              free=('t_min', 't_max')),
         one('lapse_rate', names=('air_pressure', 'spec_humid'),
             free=('vapor_pressure',)),
         one('lw_type', names=('longwave',), free=('vapor_pressure', 'tskc')),
         one('lw_cloud', names=('longwave',), free=('vapor_pressure',
                                                    'tskc')),
         Case('no-lw-estimated', go, gone=('lw_cloud',), drop=('tskc',),
              free=('wind',), names=('longwave', 'tskc')),
         one('tmax_daylength_fraction', names=('temp',), ts=60, days=2,
             free=('t_max',)),
         one('tdew_tol', given=dict(method='mtclim'), free=('wind',),
             drop=EST + ('shortwave',), ts=1440,
             names=('vapor_pressure', 'pet', 'wind')),
         one('calendar', days=2), one('out_freq', days=4),
         one('chunks', shape=(2, 2), days=2),
         one('forcing_fmt', days=2),
         one('out_vars', free=('vapor_pressure', 'prec', 'shortwave',
                               'tskc')),
         Case('no-period', go, gone=('start', 'stop')),
         one('start', days=2), one('stop', days=2),
         Case('no-options', go, gone=tuple(
             k for k in DEFAULTS if k not in ('method',)),
              names=('temp', 'prec', 'shortwave', 'longwave', 'wind',
                     'air_pressure'),
              free=('wind', 'prec', 'shortwave', 'tskc')),
         Case('no-options-daily', go, gone=tuple(DEFAULTS), ts=1440,
              drop=EST + ('shortwave',), free=('wind',),
              names=day + ('vapor_pressure', 'wind'))]
    return c
