"""C21: both configuration formats describe the same run."""
import datetime
import os

import numpy as np
import pandas as pd

from symx.runner import Case
from . import cells as cl, conf as cf, e2e

ASSUMPTIONS = ['the parsers of the two file formats (configparser, yaml) '
               'return the texts that were written']
BOUNDS = {'flags': 'any text of up to 6 letters and digits', 'numbers': 'any '
          'value in range', 'files': 'sections in either order, 1..10 output '
          'variables', 'forcing values': 'every value in range'}
OUTSIDE = ['yes, no, on and off, which YAML itself reads as flags',
           'interpolation and inline comments of INI files']
UNITS = {'temp': 'C', 'prec': 'mm timestep-1', 'shortwave': 'W m-2',
         'longwave': 'W m-2', 'vapor_pressure': 'Pa', 'rel_humid': '%',
         'air_pressure': 'kPa', 'tskc': 'fraction', 'spec_humid': 'g g-1',
         'wind': 'm s-1', 'pet': 'mm timestep-1', 't_max': 'C', 't_min': 'C',
         't_day': 'C', 'daylength': 's'}
DEFAULT = ['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure',
           'rel_humid']
VARS = dict(forcing_vars=dict(prec='Prec', t_max='Tmax', t_min='Tmin',
                              wind='U10'),
            state_vars=dict(prec='p', t_max='tx', t_min='tn'),
            domain_vars=dict(lat='lat', lon='lon', mask='Mask', elev='z'))


def base(**kw):
    d = dict(time_step=60, start='1950/1/1', stop='1950/1/31',
             forcing='/nowhere/met.nc', domain='/nowhere/domain.nc',
             state='/nowhere/state.nc', forcing_fmt='netcdf',
             out_dir='/nowhere/out')
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


def secs(met, chunks=dict(lat=10, lon=5), out=None, constant=None, **kw):
    d = dict(MetSim=met, chunks=chunks)
    for k, v in VARS.items():
        d[k] = kw.get(k, v)
    if out is not None:
        d['out_vars'] = out
    if constant is not None:
        d['constant_vars'] = constant
    return d


def both(ctx, a, b, **kw):
    """The configurations of the two files."""
    return (cf.read(ctx, cf.ini(a), **kw), cf.read(ctx, cf.yml(b), **kw))


def pairs(m):
    return {str(k): str(v) for k, v in dict(m).items()}


def day(v):
    if isinstance(v, str):
        return v if v == 'forcing' else pd.Timestamp(v.replace('/', '-'))
    return pd.Timestamp(v)


def inv(d):
    return {v: k for k, v in d.items()}


def agree(ctx, a, b, skip=()):
    """Both configurations describe the same run."""
    for k in ('forcing_vars', 'domain_vars', 'state_vars', 'chunks'):
        ctx.prove(pairs(a[k]) == pairs(b[k]), 'the same ' + k)
    for k in ('forcing', 'domain', 'state', 'out_dir', 'forcing_fmt',
              'calendar', 'scheduler', 'num_workers', 'verbose',
              'time_step') + tuple(skip):
        ctx.prove(str(a.get(k)) == str(b.get(k)), 'the same ' + k)
    for k in ('start', 'stop'):
        ctx.prove(day(a[k]) == day(b[k]), 'the same ' + k)


# ------------------------------------------------------------------- flags
def flag(ctx, kind, which, n):
    """A flag is set exactly when its text is true in any capitalization."""
    m = cf.Marks(ctx)
    c, t = m.text('f', n, quote=kind == 'yaml')
    d = secs(base(**{which: t}), out={'temp': 'temp'} if kind == 'ini' else
             {'temp': {'out_name': 'temp'}})
    p = cf.read(ctx, (cf.ini if kind == 'ini' else cf.yml)(d), marks=m)
    low = [ctx.ite(ctx.band(x >= 65, x <= 90), x + 32, x) for x in c]
    true = ctx.band(*[x == ord(k) for x, k in zip(low, 'true')]) \
        if n == 4 else False
    ctx.prove(true if p[which] else ctx.bnot(true) if n == 4 else True,
              'set exactly when written as true')
    other = {'utc_offset': 'period_ending',
             'period_ending': 'utc_offset'}[which]
    ctx.prove(not p.get(other), 'a flag that is not written is not set')


def flags(ctx):
    """Flags as the format itself spells them."""
    for w in ('utc_offset', 'period_ending'):
        o = {'utc_offset': 'period_ending',
             'period_ending': 'utc_offset'}[w]
        for t in ('true', 'True', 'TRUE', 'false', 'False', 'FALSE', 'tRuE',
                  'fAlse', "'true'", "'False'", "' TRUE '", 'no'):
            y = cf.read(ctx, cf.yml(secs(base(**{w: t}), out={
                'prec': {'out_name': 'prec'}})))
            want = t.strip("' ").lower() == 'true'
            ctx.prove(bool(y[w]) == want, 'set exactly when written as true')
            ctx.prove(not y.get(o), 'a flag that is not written is not set')
            if "'" in t:
                continue
            a = cf.read(ctx, cf.ini(secs(base(**{w: t, o: 'FALSE'}), out={
                'prec': 'prec'})))
            ctx.prove(bool(a[w]) == want and not a[o],
                      'set exactly when written as true')


# ---------------------------------------------------------------- contents
def contents(ctx, fmt='netcdf', dates=0, order=0, constant=False, rel=False,
             one=False):
    D = [('1950/1/1', '1950/12/31', '1950/1/1', '1950/12/31'),
         ('1950/01/01', '1950/12/31', '1950-01-01', '1950-12-31'),
         ('1950/1/1', '1950/12/31', "'1950-1-1'", '1950-12-31'),
         ('1950-01-01', '1950-12-31', '1950-01-01', "'1950/12/31'"),
         ('forcing', 'forcing', 'forcing', "'forcing'")][dates]
    extra = dict(out_prefix='pre', prec_type='mix', lw_type='TVA',
                 lw_cloud='default', method='mtclim', out_precision='f8',
                 utc_offset='True', out_freq='MS')
    out = dict(out_dir='some/where') if rel else {}
    kw = {}
    if fmt == 'binary':
        kw['forcing_vars'] = dict(prec='40.0 unsigned', t_max='100.0 signed',
                                  t_min='100.0 signed', wind='40.0 unsigned')
    con = dict(wind=2.5, t_max=30) if constant else None
    names = ['prec'] if one else ['temp', 'prec', 'wind', 'tskc']
    a = secs(base(start=D[0], stop=D[1], forcing_fmt=fmt, **out, **extra),
             out={n: 'out_' + n for n in names}, constant=con, **kw)
    b = secs(base(start=D[2], stop=D[3], forcing_fmt=fmt, **out, **extra),
             out={n: {'out_name': 'out_' + n} for n in names}, constant=con,
             **kw)
    if order:
        rev = lambda d: {k: d[k] for k in ['MetSim'] + [
            x for x in reversed(list(d)) if x != 'MetSim']}
        a, b = (rev(a), b) if order == 1 else (a, rev(b))
    p, q = both(ctx, a, b, workers=3, verbose=bool(order))
    agree(ctx, p, q, skip=tuple(extra))
    fv = a['forcing_vars']
    for r in (p, q):
        ctx.prove(pairs(r['forcing_vars']) == (
            pairs(fv) if fmt == 'binary' else inv(fv)),
            'forcing variables by their name in the file')
        ctx.prove(list(r['forcing_vars']) == (
            list(fv) if fmt == 'binary' else list(fv.values())),
            'variables in the order of the configuration')
        for k in ('state_vars', 'domain_vars'):
            ctx.prove(pairs(r[k]) == inv(VARS[k]),
                      k + ' by their name in the file')
        ctx.prove(pairs(r['chunks']) == {'lat': '10', 'lon': '5'}, 'chunks')
        ctx.prove(r['out_dir'] == os.path.abspath(
            'some/where' if rel else '/nowhere/out'), 'output directory')
        ctx.prove({k: (v['out_name'], v['units'])
                   for k, v in r['out_vars'].items()} ==
                  {n: ('out_' + n, UNITS[n]) for n in names},
                  'requested variables, names and default units')
        ctx.prove({k: float(v) for k, v in
                   (r.get('constant_vars') or {}).items()} == (con or {}),
                  'constants')
        ctx.prove(r['utc_offset'] is True and r['period_ending'] is False,
                  'flags')
        ctx.prove(int(r['time_step']) == 60 and r['scheduler'] ==
                  'single-threaded' and int(r['num_workers']) == 3,
                  'time step, scheduler and workers')


def outputs(ctx, form):
    """Which variables are written, under which name and in which unit."""
    got = lambda p: {k: (v.get('out_name'), v.get('units'))
                     for k, v in p['out_vars'].items()}
    names = list(UNITS)
    same = {n: (n, UNITS[n]) for n in names}
    if form == 'list':
        for pick in (names, names[3:4], names[::-2]):
            t = '[%s]' % ', '.join("'%s'" % n for n in pick)
            want = {n: same[n] for n in pick}
            p, q = both(ctx, secs(base(out_vars=t)), secs(base(out_vars=t)))
            ctx.prove(got(p) == want, 'INI list')
            ctx.prove(got(q) == want, 'YAML list')
            p = cf.read(ctx, cf.ini(secs(base(
                out_vars=t.replace("'", '"') + '  # all'))))
            ctx.prove(got(p) == want, 'INI list with a comment')
    elif form == 'section':
        p, q = both(ctx, secs(base(), out={n: n.upper() for n in names}),
                    secs(base(), out={n: {'out_name': n.upper()}
                                      for n in names}))
        want = {n: (n.upper(), UNITS[n]) for n in names}
        ctx.prove(got(p) == want, 'INI section')
        ctx.prove(got(q) == want, 'YAML section')
    elif form == 'both':
        t = "['temp', 'prec', 'wind']"
        p, q = both(ctx, secs(base(out_vars=t), out={
            'prec': 'rain', 'tskc': 'cloud'}), secs(
                base(out_vars=t), out={'prec': {'out_name': 'rain'},
                                       'tskc': {'out_name': 'cloud'}}))
        want = {'temp': ('temp', 'C'), 'prec': ('rain', 'mm timestep-1'),
                'wind': ('wind', 'm s-1'), 'tskc': ('cloud', 'fraction')}
        ctx.prove(got(p) == want, 'INI list and section')
        ctx.prove(got(q) == want, 'YAML list and section')
    elif form == 'units':
        q = cf.read(ctx, cf.yml(secs(base(), out={
            'temp': {'out_name': "'air t'", 'units': 'K'},
            'prec': {'units': "'mm s-1'", 'out_name': 'p'},
            'rel_humid': {'out_name': 'rh'},
            'tskc': {'out_name': 'c', 'units': "'%'"}})))
        ctx.prove(got(q) == {'temp': ('air t', 'K'), 'prec': ('p', 'mm s-1'),
                             'rel_humid': ('rh', '%'), 'tskc': ('c', '%')},
                  'requested units')
    elif form == 'again':
        # what one file asks for does not show in the next
        for n in range(2):
            p = cf.read(ctx, cf.ini(secs(base(), out={'temp': 'x%d' % n,
                                                      'prec': 'y%d' % n})))
            ctx.prove(got(p) == {'temp': ('x%d' % n, 'C'), 'prec': (
                'y%d' % n, 'mm timestep-1')}, 'INI section')
            p = cf.read(ctx, cf.ini(secs(base(out_vars="['temp', 'prec']"))))
            ctx.prove(got(p) == {k: same[k] for k in ('temp', 'prec')},
                      'INI list after another file')
            q = cf.read(ctx, cf.yml(secs(base(), out={
                'temp': {'out_name': 'z', 'units': 'K'}})))
            q = cf.read(ctx, cf.yml(secs(base(), out={
                'temp': {'out_name': 'temp'}})))
            ctx.prove(got(q) == {'temp': same['temp']},
                      'YAML after another file')


def scan(ctx, fmt):
    """A directory of forcings stands for the files in it."""
    w = e2e.World(ctx, tag='d')
    d = cl.place(ctx, w)
    names = ['data_%g_%g' % (40 + i, 10 + j) for i in range(2)
             for j in range(2)]
    for n in names:
        cl.text(ctx, os.path.join(d, n), [[1.0, 2.0, 3.0, 4.0]])
    for p in both(ctx, secs(base(forcing=d, forcing_fmt=fmt),
                            out={'prec': 'p'}),
                  secs(base(forcing=d, forcing_fmt=fmt),
                       out={'prec': {'out_name': 'p'}})):
        ctx.prove(sorted(p['forcing']) ==
                  sorted(os.path.join(d, n) for n in names),
                  'the files of the directory')
    p, q = both(ctx, secs(base(forcing=d + '/data_*'), out={'prec': 'p'}),
                secs(base(forcing="'%s'" % (d + '/data_*')),
                     out={'prec': {'out_name': 'p'}}))
    ctx.prove(str(p['forcing']) == d + '/data_*' == str(q['forcing']),
              'a pattern stays a pattern')


def kinds(ctx):
    """The format is told by the first line that is not a comment."""
    from metsim import io
    a = cf.ini(secs(base(), out={'prec': 'p'}))
    b = cf.yml(secs(base(), out={'prec': {'out_name': 'p'}}))
    for pre in ('', '# a comment\n', '# a\n# [MetSim]\n', '# MetSim:\n#x\n',
                '   # indented\n'):
        p, q = cf.read(ctx, pre + a), cf.read(ctx, pre + b)
        agree(ctx, p, q)
        for r in (p, q):
            ctx.prove(r['out_vars']['prec']['out_name'] == 'p', 'read in its '
                      'format')
    b2 = b.replace('MetSim:', 'MetSim:   # run', 1)
    agree(ctx, cf.read(ctx, a, name='x.yaml'), cf.read(ctx, b2, name='x.ini'))


def small(ctx):
    """Empty sections and defaults."""
    p = cf.read(ctx, cf.ini(secs(base(), chunks={}, out={'prec': 'p'})))
    q = cf.read(ctx, cf.yml(secs(base(), chunks={}, out={
        'prec': {'out_name': 'p'}})))
    agree(ctx, p, q)
    ctx.prove(not p['chunks'] and not q['chunks'], 'no chunks')
    ctx.prove(str(p.get('prec_type', 'uniform')) == 'uniform' ==
              str(q.get('prec_type', 'uniform')), 'default rain')
    for k in ('utc_offset', 'period_ending'):
        ctx.prove(not p.get(k) and not q.get(k), 'flags are off by default')
    for k in (p, q):
        ctx.prove(not k.get('constant_vars'), 'no constants by default')
    c = cf.read(ctx, cf.ini(secs(base(calendar='noleap'),
                                 out={'prec': 'p'})))
    d = cf.read(ctx, cf.yml(secs(base(calendar='noleap'),
                                 out={'prec': {'out_name': 'p'}})))
    ctx.prove(c['calendar'] == 'noleap' == d['calendar'], 'calendar')


# -------------------------------------------------------------- whole runs
def run(ctx, case='plain', ts=360, cli=False):
    """The same world run from its parameters and from either file."""
    S = {}

    def g(k, hi):
        def f(t, *i):
            q = (k, t) + i
            if q not in S:
                S[q] = ctx.real('%s_%s' % (k, '_'.join(map(str, q[1:]))), 0,
                                hi)
            return S[q]
        return f
    m = cf.Marks(ctx)
    number = {}
    res = {}
    daily = ts == 1440
    names = {'prec': 'mm h-1', 'wind': None, 'tskc': '%'}
    if not daily and case != 'utc':
        names['temp'] = 'K'
    wind = ctx.real('const', 0, 60)
    scal = ctx.real('coef', .1, .9)
    for kind in ('dict', 'ini', 'yaml'):
        fl = dict(prec=g('prec', 300), tskc=g('tskc', 1), wind=g('wind', 60))
        w = e2e.World(ctx, days=2, shape=(1, 2), tag=kind, objects=True,
                      coords=dict(lon=[0.0, 30.0], lat=[40.0]),
                      forcing=e2e.full(**fl), post=rename)
        p = w.config()
        over = dict(time_step=ts, method='passthrough', out_prefix='o',
                    out_precision='f8')
        con = None
        if case == 'utc':
            over['utc_offset'] = True
        elif case == 'ending':
            over['period_ending'] = True
        elif case == 'freq':
            over['out_freq'] = 'D'
        elif case == 'constant':
            con = {'wind': wind}
        fv = {k: 'F_' + k for k in w.forcing}
        sv = {k: 'S_' + k for k in ('prec', 't_min', 't_max')}
        dv = {k: 'D_' + k for k in ('mask', 'elev')}
        dv.update(lat='lat', lon='lon')
        units = kind == 'dict' or case == 'units'
        if kind == 'dict':
            cfg = dict(p, **over)
            cfg.update(forcing_vars=inv(fv), state_vars=inv(sv),
                       domain_vars=inv(dv), chunks={'lon': 1},
                       out_vars={k: dict({'out_name': 'o_' + k}, **(
                           {'units': u} if u and case == 'units' else {}))
                           for k, u in names.items()})
            if con:
                cfg['constant_vars'] = con
        else:
            met = {k: p[k] for k in ('forcing', 'domain', 'state', 'out_dir',
                                     'forcing_fmt')}
            met.update(over, start=w.start.strftime(
                '%Y/%m/%d' if kind == 'ini' else '%Y-%m-%d'),
                stop=p['stop'].strftime(
                    '%Y/%m/%d' if kind == 'ini' else '%Y-%m-%d'))
            out = {k: 'o_' + k for k in names} if kind == 'ini' else {
                k: dict({'out_name': 'o_' + k}, **(
                    {'units': "'%s'" % u} if u and case == 'units' else {}))
                for k, u in names.items()}
            if con:
                x, t = m.number('const', 0, 60, typed=kind == 'yaml')
                con = {'wind': t}
            text = (cf.ini if kind == 'ini' else cf.yml)(secs(
                met, chunks={'lon': 1}, out=out, constant=con,
                forcing_vars=fv, state_vars=sv, domain_vars=dv))
            cfg = cf.read(ctx, text, marks=m)
        if kind == 'ini' and case == 'units':
            continue
        from metsim.metsim import MetSim
        MetSim(cfg).run()
        res[kind] = w.outputs()
    ref = res.pop('dict')
    for kind, o in res.items():
        ctx.prove(set(o) == set(ref), 'the same files')
        for f in set(o) & set(ref):
            a, b = ref[f]['vars'], o[f]['vars']
            ctx.prove(set(a) == set(b), 'the same variables')
            for v in set(a) & set(b):
                ctx.prove(a[v]['dims'] == b[v]['dims'] and {
                    k: repr(x) for k, x in a[v]['attrs'].items()} == {
                    k: repr(x) for k, x in b[v]['attrs'].items()},
                    'the same attributes')
                x, y = np.asarray(a[v]['data']), np.asarray(b[v]['data'])
                ctx.prove(x.shape == y.shape, 'the same shape')
                if x.shape == y.shape:
                    ctx.prove_close(list(y.flat), list(x.flat),
                                    'the same values', rtol=1e-9)


def rename(w):
    w.met = w.met.rename({k: 'F_' + k for k in w.met.data_vars})
    w.st = w.st.rename({k: 'S_' + k for k in w.st.data_vars})
    w.domain = w.domain.rename({k: 'D_' + k for k in ('mask', 'elev')})


def coefficients(ctx, which, kind):
    """Coefficients written as text reach the estimates as numbers."""
    m = cf.Marks(ctx)
    lo, hi = {'tday_coef': (0, 1), 'rain_scalar': (0, 1),
              'tmax_daylength_fraction': (.3, .9), 'sw_prec_thresh': (0, 9),
              'lapse_rate': (.001, .01), 'tdew_tol': (1e-6, 1e-3)}[which]
    seen = []

    class Spy:
        @staticmethod
        def run(df, params):
            seen.append(params[which])
            return df
    from metsim.metsim import MetSim
    w = e2e.World(ctx, days=1, forcing=e2e.full())
    p = w.config()
    x, t = m.number('coef', lo, hi, typed=kind == 'yaml')
    met = {k: p[k] for k in ('forcing', 'domain', 'state', 'out_dir',
                             'forcing_fmt')}
    met.update(start='2001-03-01', stop='2001-03-01', time_step=1440,
               method='passthrough', out_precision='f8', **{which: t})
    text = (cf.ini if kind == 'ini' else cf.yml)(secs(
        met, chunks={}, out={'wind': 'wind'} if kind == 'ini' else
        {'wind': {'out_name': 'wind'}},
        forcing_vars={k: k for k in w.forcing},
        state_vars={k: k for k in ('prec', 't_min', 't_max')},
        domain_vars={k: k for k in ('mask', 'elev', 'lat', 'lon')}))
    keep = dict(MetSim.methods)
    MetSim.methods['passthrough'] = Spy
    import metsim.metsim as mm
    geom = mm.solar_geom
    if which == 'lapse_rate' and ctx.sym:
        import numpy
        mm.solar_geom = lambda *a: (numpy.zeros((366, 2880)),) + tuple(
            numpy.ones(366) for _ in range(3))
    # symbolic numbers are not kept in the attributes of a file
    write = MetSim.setup_netcdf_output
    if ctx.sym:
        def f(self, *a):
            keep = self.params
            self.params = {k: v for k, v in keep.items() if k != which}
            try:
                return write(self, *a)
            finally:
                self.params = keep
        MetSim.setup_netcdf_output = f
    try:
        MetSim(cf.read(ctx, text, marks=m)).run()
    finally:
        mm.solar_geom = geom
        MetSim.setup_netcdf_output = write
        MetSim.methods.clear()
        MetSim.methods.update(keep)
    ctx.prove(len(seen) == 1, 'one cell')
    ctx.prove(not isinstance(seen[0], str), 'the coefficient is a number')
    ctx.prove_close(seen, [x], 'the coefficient that was written')


def cases(tier):
    c = []
    N = (1, 3, 4, 5) if tier == 'quick' else range(1, 9)
    for k in ('ini', 'yaml'):
        for w in ('utc_offset', 'period_ending'):
            c += [Case('flag-%s-%s-%d' % (k, w, n), flag, kind=k, which=w,
                       n=n) for n in N]
    c += [Case('flags', flags), Case('kinds', kinds), Case('small', small)]
    c += [Case('contents-%d' % d, contents, dates=d, order=d % 3)
          for d in range(5)]
    c += [Case('contents-' + f, contents, fmt=f, constant=True)
          for f in ('netcdf', 'binary', 'ascii', 'data')]
    c += [Case('contents-binary-reversed', contents, fmt='binary', order=2),
          Case('contents-relative', contents, rel=True),
          Case('contents-one', contents, one=True)]
    c += [Case('outputs-' + f, outputs, form=f)
          for f in ('list', 'section', 'both', 'units', 'again')]
    c += [Case('scan-' + f, scan, fmt=f) for f in ('ascii', 'binary')]
    c += [Case('run-%s-%d' % (k, ts), run, case=k, ts=ts)
          for k, ts in (('plain', 360), ('plain', 1440), ('utc', 180),
                        ('ending', 360), ('freq', 360), ('constant', 360),
                        ('constant', 1440), ('units', 360), ('units', 1440))]
    for k in ('ini', 'yaml'):
        c += [Case('coefficient-%s-%s' % (k, w), coefficients, which=w,
                   kind=k) for w in ('tday_coef', 'rain_scalar',
                                     'tmax_daylength_fraction',
                                     'sw_prec_thresh', 'lapse_rate',
                                     'tdew_tol')]
    return c
