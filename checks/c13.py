"""C13: written values agree with their declared units and names."""
import numpy as np

from symx.runner import Case
from . import cells as cl, common as cm, e2e

ASSUMPTIONS = []
BOUNDS = {'values': 'within the range of each quantity', 'units': 'every '
          'offered one, unknown ones', 'time step': '1440, 360, 180, 60, 30 '
          '(every divisor up to six hours for the conversions alone)'}
OUTSIDE = ['rounding to single precision', 'temperature and the quantities '
           'that depend on it are checked at fixed temperatures in whole '
           'runs, at every value in the conversions']

# factor and offset from the default unit, by the time step in minutes
one = lambda ts: (1.0, 0.0)
UNITS = {
    'prec': {'mm timestep-1': one, 'mm h-1': lambda ts: (60.0 / ts, 0.0),
             'mm s-1': lambda ts: (1.0 / (60.0 * ts), 0.0)},
    'pet': {'mm timestep-1': one, 'mm h-1': lambda ts: (60.0 / ts, 0.0),
            'mm s-1': lambda ts: (1.0 / (60.0 * ts), 0.0)},
    't_max': {'C': one, 'K': lambda ts: (1.0, 273.15)},
    't_min': {'C': one, 'K': lambda ts: (1.0, 273.15)},
    't_day': {'C': one, 'K': lambda ts: (1.0, 273.15)},
    'temp': {'C': one, 'K': lambda ts: (1.0, 273.15)},
    'vapor_pressure': {'Pa': one, 'hPa': lambda ts: (.01, 0.0),
                       'kPa': lambda ts: (.001, 0.0)},
    'air_pressure': {'kPa': one, 'hPa': lambda ts: (10.0, 0.0),
                     'Pa': lambda ts: (1000.0, 0.0)},
    'tskc': {'fraction': one, '%': lambda ts: (100.0, 0.0)},
    'rel_humid': {'%': one, 'fraction': lambda ts: (.01, 0.0)},
    'shortwave': {'W m-2': one}, 'longwave': {'W m-2': one},
    'spec_humid': {'g g-1': one}, 'wind': {'m s-1': one},
    'daylength': {'s': one}}
DEFAULT = {k: list(v)[0] for k, v in UNITS.items()}
RANGE = {'prec': (0, 500), 'pet': (0, 50), 't_max': (-80, 60),
         't_min': (-80, 60), 't_day': (-80, 60), 'temp': (-80, 60),
         'vapor_pressure': (0, 8000), 'air_pressure': (20, 120),
         'tskc': (0, 1), 'rel_humid': (0, 100), 'shortwave': (0, 1400),
         'longwave': (0, 800), 'spec_humid': (0, .1), 'wind': (0, 100),
         'daylength': (0, 86400)}
DAY = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave',
       'tskc', 'pet', 'wind', 'daylength']
SUB = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure',
       'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
STEPS = [t for t in range(1, 361) if 1440 % t == 0] + [1440]
KPA = 'sub-daily vapor pressure labelled Pa holds Pa'


def table(ctx, ts):
    """The conversions themselves."""
    from metsim.units import converters
    for v, us in UNITS.items():
        X = [ctx.real('%s%d' % (v, i), *RANGE[v]) for i in range(2)]
        for u, f in us.items():
            ctx.prove(u in converters[v], 'documented units are offered')
            if u not in converters[v]:
                continue
            a = cm.col(ctx, X)
            got = converters[v][u](a, ts)
            k, b = f(ts)
            ctx.prove_close(list(np.asarray(got)), [x * k + b for x in X],
                            '%s in %s' % (v, u))
            ctx.prove_close(list(np.asarray(a)), X,
                            'conversion leaves the quantity as it is')


def world(ctx, days, tag, S, **kw):
    def g(name, lo, hi):
        def f(t, *i):
            k = (name, t) + i
            if k not in S:
                S[k] = ctx.real('%s_%d_%s' % (name, t,
                                              '_'.join(map(str, i))), lo, hi)
            return S[k]
        return f
    fl = dict(prec=g('prec', 0, 400), wind=g('wind', 0, 60),
              tskc=g('tskc', 0, 1), shortwave=g('shortwave', 0, 500),
              pet=g('pet', 0, 20), vapor_pressure=600.0)
    fl.update(kw.pop('extra', {}))
    return e2e.World(ctx, days=days, shape=(1, 1), forcing=e2e.full(**fl),
                     tag=tag)


def anchors(ctx, names, ts, o, S, days, vp, base):
    """The written values in default units against the inputs."""
    n = 1440 // ts
    d = lambda k: list(o['vars'][base(k)]['data'][:, 0, 0])
    day = lambda k: [S[k, t, 0, 0] for t in range(days) for _ in range(n)]
    for k in names:
        x = d(k)
        if k in ('wind', 'tskc'):
            ctx.prove_close(x, day(k), k + ' in its default unit')
        elif k == 'prec':
            ctx.prove_close(x, [p / n for p in day(k)],
                            'prec in mm per step')
        elif k == 'shortwave':
            ctx.prove_close([ctx.sum(x[i * n:(i + 1) * n]) / n
                             for i in range(days)],
                            [S[k, t, 0, 0] for t in range(days)],
                            'shortwave in W m-2')
        elif k == 'pet':
            ctx.prove_close(x, day(k), 'pet in mm per day')
        elif k == 't_min':
            ctx.prove_close(x, [2.0] * days, 't_min in C')
        elif k == 't_max':
            ctx.prove_close(x, [12.0] * days, 't_max in C')
        elif k == 't_day':
            ctx.prove_close(x, [9.0] * days, 't_day in C')
        elif k == 'temp':
            ctx.prove(all(1.99 < float(v) < 13.01 for v in x), 'temp in C')
        elif k == 'air_pressure':
            ctx.prove(all(94 < float(v) < 97 for v in x),
                      'air pressure at 500 m in kPa')
        elif k == 'rel_humid':
            want = [100.0 * 600.0 / ctx.svp(float(t)) for t in d('temp')] \
                if 'temp' in names else None
            if want:
                ctx.prove_close(x, want, 'relative humidity in %', rtol=1e-3)
        elif k == 'spec_humid':
            ctx.prove(all(.003 < float(v) < .005 for v in x),
                      'specific humidity in g g-1')
        elif k == 'longwave':
            ctx.prove(all(150 < float(v) < 450 for v in x
                          if not hasattr(v, 't')), 'longwave in W m-2')
        elif k == 'daylength':
            ctx.prove(all(3600 < float(v) <= 86400 for v in x),
                      'length of the day in s')
        elif k == 'vapor_pressure':
            if ts == 1440:
                ctx.prove_close(x, [vp] * days, 'daily vapor pressure in Pa')
            else:
                ctx.prove_close(x, [vp] * len(x), KPA, rtol=1e-5)
                ctx.prove(all(abs(float(v) / vp - 1) < 1e-5 or
                              abs(float(v) / vp - 1e-3) < 1e-8 for v in x),
                          'sub-daily vapor pressure is that of the day, in '
                          'Pa or kPa')


def run(ctx, ts, pick, rename=True, days=2, text=False, only=None, **kw):
    """The same run with default units and with those of pick(name, i)."""
    S = {}
    names = only or (DAY if ts == 1440 else SUB)
    t = str(ts) if text else ts
    w0 = world(ctx, days, 'a', S)
    (o0,) = w0.run(time_step=t, out_vars={
        k: {'out_name': k} for k in names}, **kw).values()
    out = lambda k: ('out_' + k) if rename else k
    ov, want = {}, {}
    for i, k in enumerate(names):
        u = pick(k, i)
        ov[k] = {'out_name': out(k)}
        if u is not None:
            ov[k]['units'] = u
        want[k] = u if u in UNITS[k] else DEFAULT[k]
    w = world(ctx, days, 'b', S)
    (o,) = w.run(time_step=t, out_vars=ov, **kw).values()
    anchors(ctx, names, ts, o0, S, days, 600.0, lambda k: k)
    dims = set(w.dims) | {'time'}
    ctx.prove(set(o['vars']) - dims == {out(k) for k in names},
              'variables carry their configured names')
    for k in names:
        a = o0['vars'][k]
        ctx.prove(a['attrs'].get('units') == DEFAULT[k],
                  'default unit is declared')
        if out(k) not in o['vars']:
            continue
        b = o['vars'][out(k)]
        ctx.prove(b['attrs'].get('units') == want[k],
                  'the unit of the values is declared')
        f, c = UNITS[k][want[k]](ts)
        ctx.prove_close(list(b['data'][:, 0, 0]),
                        [x * f + c for x in a['data'][:, 0, 0]],
                        'values are in the declared unit')
        ctx.prove({x: repr(y) for x, y in b['attrs'].items()
                   if x != 'units'} ==
                  {x: repr(y) for x, y in a['attrs'].items()
                   if x != 'units'}, 'the other attributes are the same')


def clock(ctx, utc, ts=360, lon=0.0, **kw):
    """UTC label exactly when asked for."""
    S = {}
    w = world(ctx, 2, 'a', S)
    w.coords = dict(lon=[lon])
    (o,) = w.run(utc_offset=utc, time_step=ts,
                 out_vars={'wind': {'out_name': 'wind'}}, **kw).values()
    a = o['vars']['time']['attrs']
    for k in ('long_name', 'standard_name'):
        ctx.prove(('utc' in str(a.get(k, '')).lower()) == bool(utc),
                  'time is labelled as UTC exactly when asked for')
        ctx.prove(('local' in str(a.get(k, '')).lower()) == (not utc),
                  'time is labelled as local exactly when it is')
    ctx.prove(str(a.get('units', '')).split(' ')[0] == 'minutes',
              'time is in minutes')


def swap(ctx, ts=360):
    """Names of one variable given to another."""
    S = {}
    w = world(ctx, 2, 'a', S)
    (o,) = w.run(time_step=ts, out_vars={
        'wind': {'out_name': 'tskc'}, 'tskc': {'out_name': 'wind',
                                               'units': '%'},
        'prec': {'out_name': 'Rain-Fall_1', 'units': 'mm h-1'}}).values()
    n = 1440 // ts
    rep = lambda k, f: [S[k, t, 0, 0] * f for t in range(2)
                        for _ in range(n)]
    # six hours in a step
    for nm, k, f, u, ln in (('tskc', 'wind', 1.0, 'm s-1', 'wind'),
                            ('wind', 'tskc', 100.0, '%', 'cloud'),
                            ('Rain-Fall_1', 'prec', 1.0 / 24, 'mm h-1',
                             'precip')):
        v = o['vars'][nm]
        ctx.prove_close(list(v['data'][:, 0, 0]), rep(k, f),
                        'values stand under the configured name')
        ctx.prove(v['attrs'].get('units') == u and
                  ln in str(v['attrs'].get('long_name', '')).lower(),
                  'attributes stand under the configured name')


def cases(tier):
    nth = lambda n: lambda k, i: list(UNITS[k])[n % len(UNITS[k])]
    bad = ('furlong', 'k', 'Kelvin', '', 'mm', 'kpa', 'mm timestep-1 ',
           'Percent', 'W', 'PA')
    wrong = lambda k, i: bad[i % len(bad)]
    other = {'prec': 'K', 'temp': 'mm h-1', 'tskc': 'kPa', 'pet': '%',
             'rel_humid': 'hPa', 'air_pressure': '%', 't_min': 'Pa'}
    mixed = lambda k, i: other.get(k, [None, 'x', list(UNITS[k])[-1]][i % 3])
    c = [Case('table-%d' % t, table, ts=t) for t in STEPS]
    c += [Case('hourly-second', run, ts=60, pick=nth(1), days=1),
          Case('hourly-third', run, ts=60, pick=nth(2), days=1),
          Case('six-hours-second', run, ts=360, pick=nth(1)),
          Case('six-hours-third', run, ts=360, pick=nth(2), text=True),
          Case('six-hours-default', run, ts=360, pick=nth(0), rename=False),
          Case('six-hours-none', run, ts=360, pick=lambda k, i: None),
          Case('six-hours-unknown', run, ts=360, pick=wrong),
          Case('three-hours-mixed', run, ts=180, pick=mixed, rename=False),
          Case('half-hours', run, ts=30, pick=nth(1), days=1,
               only=['prec', 'wind', 'tskc']),
          Case('period-ending', run, ts=360, pick=nth(2),
               period_ending=True),
          Case('daily-second', run, ts=1440, pick=nth(1)),
          Case('daily-third', run, ts=1440, pick=nth(2), text=True),
          Case('daily-unknown', run, ts=1440, pick=wrong),
          Case('daily-mixed', run, ts=1440, pick=mixed, rename=False),
          Case('single', run, ts=360, pick=nth(1), only=['air_pressure']),
          Case('swap', swap),
          Case('utc', clock, utc=True), Case('local', clock, utc=False),
          Case('utc-east', clock, utc=True, lon=90.0, ts=60),
          Case('local-east', clock, utc=False, lon=90.0),
          Case('utc-daily', clock, utc=True, ts=1440),
          Case('local-ending', clock, utc=False, period_ending=True)]
    if tier == 'thorough':
        for t in STEPS:
            if t >= 15:
                for n in (1, 2):
                    c.append(Case('run-%d-%d' % (t, n), run, ts=t, days=3,
                                  pick=nth(n), budget=300))
    return c
