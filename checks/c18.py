"""C18: invalid configurations are refused before anything is computed."""
import os

import numpy as np
import pandas as pd

from symx.runner import Case
from . import cells as cl, conf as cf, e2e

ASSUMPTIONS = []
BOUNDS = {'time step': 'every whole number from 1 to 3000 minutes', 'options':
          'any text of up to 15 printable characters', 'start and stop':
          'from 3 days before to 3 days after a record of 5 days',
          'forcing values': 'every value in range'}
OUTSIDE = ['entries of the wrong type', 'unreadable files',
           'unknown precipitation options, which are taken as uniform']
DAY = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave',
       'tskc', 'pet', 'wind', 'daylength']
SUB = ['temp', 'prec', 'shortwave', 'vapor_pressure', 'air_pressure',
       'rel_humid', 'spec_humid', 'longwave', 'tskc', 'wind']
STEPS = [t for t in range(1, 361) if 1440 % t == 0] + [1440]
TYPES = ['default', 'tva', 'anderson', 'brutsaert', 'satterlund', 'idso',
         'prata']
CLOUDS = ['default', 'cloud_deardorff']


def world(ctx, days=1, **kw):
    f = e2e.full(wind=lambda t, *i: ctx.real(
        'w%d_%s' % (t, '_'.join(map(str, i))), 0, 60))
    for k in kw.pop('drop', ()):
        f.pop(k)
    kw.setdefault('objects', True)
    return e2e.World(ctx, days=days, forcing=f, **kw)


def written(w):
    """Files in the output directory, if there is one."""
    d = os.path.join(w.dir, 'out')
    if w.ctx.sym:
        from symx import stubs
        return [p for p in stubs.FS.nc if p.startswith(d)]
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]


# ---------------------------------------------------- any value of an entry
def validated(ctx, **over):
    """Whether a run with these entries passes the validation; nothing is
    written or computed."""
    import metsim.metsim as mm
    from metsim.metsim import MetSim
    w = world(ctx)
    ms = MetSim(w.config())
    for k, v in over.items():
        ms.params[k] = v
    done = []

    def stub(*a, **k):
        done.append(1)
    if not hasattr(MetSim, 'setup_netcdf_output') or not hasattr(
            mm, 'wrap_run_slice'):
        if not ctx.sym:
            return None
        from symx.sym import Unsupported
        raise Unsupported('the steps of a run have other names')
    ms.setup_netcdf_output = stub
    keep = mm.wrap_run_slice
    mm.wrap_run_slice = stub
    try:
        ms.run()
        return True
    except Exception as e:
        if type(e).__name__ in ('Unsupported', 'Undecided', 'Budget'):
            raise
        ctx.prove(not done, 'refused before anything is set up')
        return False
    finally:
        mm.wrap_run_slice = keep


def step(ctx, lo, hi, text=False):
    """Every time step."""
    ts = ctx.int('ts', lo, hi)
    v = ts
    if text:
        if ctx.sym:
            from symx import text as tx
            v = tx.Number(ts, '360')
        else:
            v = str(int(ts))
    names = ctx.choice('daily', [0, 1])
    ctx.assume(ctx.bor(ts == 1440, names == 0))
    ctx.assume(ctx.bor(ts != 1440, names == 1))
    ok = validated(ctx, time_step=v)
    valid = ctx.bor(*[ts == d for d in STEPS if lo <= d <= hi])
    if ok is not None:
        ctx.prove(valid if ok else ctx.bnot(valid),
                  'accepted exactly when the step is valid')


def option(ctx, which, n, known, exact=False):
    """Every text of n characters as an option."""
    c = [ctx.int('c%d' % i, 33, 126) for i in range(n)]
    if ctx.sym:
        from symx import text as tx
        t = tx.Text(c, 'option')
    else:
        t = ''.join(chr(int(x)) for x in c)
    ok = validated(ctx, **{which: t})
    low = c if exact else [
        ctx.ite(ctx.band(x >= 65, x <= 90), x + 32, x) for x in c]
    hit = [ctx.band(*[x == ord(k) for x, k in zip(low, o)])
           for o in known if len(o) == n]
    valid = ctx.bor(*hit) if len(hit) > 1 else hit[0] if hit else None
    if ok is None:
        return
    if valid is None:
        ctx.prove(not ok, 'unknown options are refused')
    else:
        ctx.prove(valid if ok else ctx.bnot(valid),
                  'accepted exactly when the option is known')


# ------------------------------------------------------------- whole runs
def whole(ctx, ok, over=None, gone=(), mkout=True, days=1, ts=360, wkw=None,
          domain=None, out=None):
    """A run that is refused without a trace, or accepted."""
    from metsim.metsim import MetSim
    w = world(ctx, days=days, mkout=mkout, **(wkw or {}))
    try:
        p = w.config()
        p.update(time_step=ts, out_vars={k: {'out_name': k} for k in (
            out if out is not None else ['wind', 'prec'])})
        p.update(over or {})
        if domain:
            p['domain_vars'] = {k: v for k, v in p['domain_vars'].items()
                                if v not in domain}
        for k in gone:
            s, _, e = k.partition('.')
            if e:
                p[s] = {a: b for a, b in p[s].items() if b != e}
            else:
                p.pop(s)
        MetSim(p).run()
        done = True
    except Exception as e:
        if type(e).__name__ in ('Unsupported', 'Undecided', 'Budget') or (
                ok and not ctx.sym and False):
            raise
        done = False
        msg = '%s: %s' % (type(e).__name__, e)
    if ok is None:
        ctx.prove(done == bool(written(w)),
                  'a run is completed or refused without a trace')
    elif ok:
        ctx.prove(done, 'a valid configuration is accepted')
        if done:
            ctx.prove(len(written(w)) > 0, 'an accepted run writes its files')
    else:
        ctx.prove(not done, 'an invalid configuration is refused')
        ctx.prove(not written(w), 'a refused run writes no file')


def reach(ctx, fmt, a, b, n=5, kind=0):
    """A run from day a to day b of a record of n days (0..n-1)."""
    from metsim.metsim import MetSim
    t0 = pd.Timestamp('2001-03-10')
    w = world(ctx, days=n, start=t0, state_days=130,
              state_start=t0 - pd.Timedelta(days=110))
    day = lambda k: (t0 + pd.Timedelta(days=k))
    text = (lambda k: day(k).to_pydatetime(),
            lambda k: day(k).strftime('%Y/%m/%d'),
            lambda k: day(k).strftime('%Y-%m-%d'),
            lambda k: day(k).date())[kind]
    p = w.config()
    p.update(start=text(a), stop=text(b), out_vars={
        'wind': {'out_name': 'wind'}})
    if fmt == 'data':
        p.update(forcing_fmt='data', forcing=w.met)
    if fmt in ('ascii', 'binary'):
        cell = os.path.join(cl.place(ctx, w), 'data_40_10')
        names = ['prec', 't_min', 't_max', 'wind', 'shortwave']
        if fmt == 'ascii':
            cl.text(ctx, cell, [[1.0, 2.0, 12.0, ctx.real('w%d' % t, 0, 60),
                                 100.0] for t in range(n)])
            p.update(forcing_vars={k: k for k in names})
        else:
            fix = cl.words(ctx, [40, 200, 1200, 200, 4000])
            bs = []
            for t in range(n):
                bs += fix[:6] + cl.word(ctx, 'b%d' % t) + fix[8:]
            cl.binary(ctx, cell, bs)
            p.update(forcing_vars={k: '40 signed' if k.startswith('t_') else
                                   '40 unsigned' for k in names})
        p.update(forcing_fmt=fmt, forcing=[cell])
        # a record without dates starts with the run
        ok = b >= a and b - a + 1 <= n
    else:
        ok = 0 <= a <= b <= n - 1
    try:
        MetSim(p).run()
        done = True
    except Exception as e:
        if type(e).__name__ in ('Unsupported', 'Undecided', 'Budget'):
            raise
        done = False
    ctx.prove(done == ok, 'accepted exactly when the run lies in the record')
    if not ok:
        ctx.prove(not written(w), 'a refused run writes no file')


def lacking(ctx, kind, sec, key=None):
    """Files of a configuration that lack an entry."""
    from metsim.metsim import MetSim
    w = world(ctx)
    p = w.config()
    met = {k: p[k] for k in ('forcing', 'domain', 'state', 'out_dir',
                             'forcing_fmt')}
    met.update(start='2001-03-01', stop='2001-03-01', time_step=360,
               method='passthrough')
    d = dict(MetSim=met, chunks={},
             forcing_vars={k: k for k in w.forcing},
             state_vars={k: k for k in ('prec', 't_min', 't_max')},
             domain_vars={k: k for k in ('mask', 'elev', 'lat', 'lon')},
             out_vars={'wind': 'wind'} if kind == 'ini' else
             {'wind': {'out_name': 'wind'}})
    if key is None:
        d.pop(sec, None)
    else:
        d[sec].pop(key)
    full = sec == 'none'
    try:
        MetSim(cf.read(ctx, (cf.ini if kind == 'ini' else cf.yml)(d))).run()
        done = True
    except Exception as e:
        if type(e).__name__ in ('Unsupported', 'Undecided', 'Budget'):
            raise
        done = False
    ctx.prove(done == full, 'accepted exactly when nothing is lacking')
    if not full:
        ctx.prove(not written(w), 'a refused run writes no file')


MONTHS = dict(domain_extra={'dur': (('month',), np.full((12, 1, 1), 300.0)),
                            't_pk': (('month',), np.full((12, 1, 1), 700.0))})


def cases(tier):
    c = [Case('step-%d' % a, step, lo=a, hi=b, budget=120)
         for a, b in ((1, 400), (361, 1439), (1440, 3000))]
    c.append(Case('step-text', step, lo=1, hi=3000, text=True, budget=120))
    N = range(1, 13) if tier == 'quick' else range(1, 20)
    for n in N:
        c.append(Case('type-%d' % n, option, which='lw_type', n=n,
                      known=TYPES))
    for n in (4, 7, 14, 15, 16):
        c.append(Case('cloud-%d' % n, option, which='lw_cloud', n=n,
                      known=CLOUDS))
    for n in (1, 2, 3):
        c.append(Case('precision-%d' % n, option, which='out_precision', n=n,
                      known=['f4', 'f8'], exact=True))
    bad = lambda name, **k: Case('bad-' + name, whole, ok=False, **k)
    good = lambda name, **k: Case('good-' + name, whole, ok=True, **k)
    # entries
    for k in ('forcing', 'forcing_vars', 'out_dir', 'time_step', 'domain',
              'state', 'domain_vars.mask', 'domain_vars.elev',
              'state_vars.prec',
              'state_vars.t_min', 'state_vars.t_max', 'forcing_vars.prec',
              'forcing_vars.t_min', 'forcing_vars.t_max',
              'forcing_vars.shortwave', 'forcing_vars.wind'):
        c.append(bad('no-' + k, gone=[k]))
    for k in ('forcing', 'out_dir', 'time_step', 'forcing_fmt', 'domain',
              'state'):
        c += [bad('empty-' + k, over={k: ''}),
              bad('none-' + k, over={k: None})]
    units = dict(dims=('hru',), shape=(2,))
    c += [bad('units-no-%s' % k, wkw=units, gone=['domain_vars.' + k])
          for k in ('lat', 'lon', 'mask', 'elev')]
    c.append(good('units', wkw=units))
    c += [bad('no-vars', out=[]),
          bad('no-forcing-vars', over={'forcing_vars': {}}),
          bad('method', over={'method': 'mtclimb'}),
          bad('fmt', over={'forcing_fmt': 'netcdf5'})]
    for m in ('MTCLIM', 'Passthrough', 'PASSTHROUGH', ' mtclim', 'mt',
              'mtclim passthrough', ''):
        for t in (360, 1440):
            c.append(Case('method-%s-%d' % (m, t), whole, ok=None, ts=t,
                          over={'method': m}))
    # steps
    for t in (0, -1, -60, 7, 13, 361, 400, 480, 500, 720, 1000, 1439, 1441,
              2880, 10080, '480', '7'):
        c.append(bad('ts-%s-%s' % (t, type(t).__name__), ts=t,
                     out=['prec'], days=2))
        if t in (480, 720, 2880):
            c.append(bad('ts-%s-mtclim' % t, ts=t, out=['prec'],
                         over={'method': 'mtclim'}))
    for t in (10, 15, 20, 45, 96, 180, 288, 360, 1440, '60', '1440'):
        c.append(good('ts-%s-%s' % (t, type(t).__name__), ts=t))
    # variables
    for v in sorted(set(DAY + SUB)):
        c += [Case('daily-' + v, whole, ok=v in DAY, ts=1440, out=[v]),
              Case('subdaily-' + v, whole, ok=v in SUB, ts=180, out=[v]),
              Case('daily-text-' + v, whole, ok=v in DAY, ts='1440', out=[v]),
              Case('subdaily-text-' + v, whole, ok=v in SUB, ts='180',
                   out=[v])]
        if v not in DAY:
            c.append(bad('daily-also-' + v, ts=1440, out=['prec', v]))
        if v not in SUB:
            c.append(bad('subdaily-also-' + v, out=['prec', v, 'wind']))
    for v in ('elev', 'humidity', 'PREC', 'tdew', 'dtr', 'seasonal_prec',
              'lat', ''):
        c += [bad('unknown-%s-%d' % (v, t), ts=t, out=['prec', v])
              for t in (60, 1440)]
    # options
    for v in TYPES:
        for f in (str, str.upper, str.capitalize):
            c.append(good('lw-' + f(v), over={'lw_type': f(v)},
                          out=['longwave']))
    for v in CLOUDS:
        for f in (str, str.upper, str.title):
            c.append(good('cloud-' + f(v), over={'lw_cloud': f(v)},
                          out=['longwave']))
    for k, v in (('lw_type', 'prata2'), ('lw_type', ''), ('lw_type', None),
                 ('lw_cloud', 'deardorff'), ('lw_cloud', 'cloud'),
                 ('lw_cloud', ''), ('out_precision', 'f2'),
                 ('out_precision', 'F8'), ('out_precision', 'f16'),
                 ('out_precision', 'double'), ('out_precision', '')):
        c += [bad('%s-%s-%d' % (k, v, t), over={k: v}, ts=t)
              for t in (360, 1440)]
    c += [good('f4', over={'out_precision': 'f4'}, wkw={'objects': False}),
          good('f8', over={'out_precision': 'f8'}),
          good('all-daily', ts=1440, out=DAY),
          good('all-subdaily', ts=120, out=SUB),
          good('mtclim', over={'method': 'mtclim'}, out=['wind', 'temp']),
          good('mtclim-no-shortwave', over={'method': 'mtclim'},
               gone=['forcing_vars.shortwave'], out=['wind', 'shortwave']),
          good('mtclim-daily', over={'method': 'mtclim'}, ts=1440, out=DAY),
          good('no-wind', gone=['forcing_vars.wind'], out=['prec', 'temp']),
          good('constant-wind', gone=['forcing_vars.wind'],
               over={'constant_vars': {'wind': 2.0}}),
          good('constant-shortwave', gone=['forcing_vars.shortwave'],
               over={'constant_vars': {'shortwave': 120.0}}),
          good('new-directory', mkout=False),
          good('new-directory-daily', mkout=False, ts=1440),
          bad('new-directory-refused', mkout=False, out=['pet']),
          good('utc', over={'utc_offset': True}, days=2),
          good('ending', over={'period_ending': True}),
          good('lapse', over={'lapse_rate': '0.006', 'tday_coef': '0.4',
                              'rain_scalar': '0.7', 'sw_prec_thresh': '1',
                              'tmax_daylength_fraction': '0.6',
                              'tdew_tol': '1e-4'})]
    for pt in ('triangle', 'MIX', 'Triangle', 'mix'):
        c += [good(pt, over={'prec_type': pt}, wkw=MONTHS),
              bad('no-dur-' + pt, over={'prec_type': pt}, wkw=MONTHS,
                  gone=['domain_vars.dur']),
              bad('no-peak-' + pt, over={'prec_type': pt}, wkw=MONTHS,
                  gone=['domain_vars.t_pk']),
              bad('no-months-' + pt, over={'prec_type': pt})]
    c.append(good('UNIFORM', over={'prec_type': 'UNIFORM'}))
    # the record
    S = ((0, 4), (1, 3), (2, 2), (-1, 4), (0, 5), (-1, 5), (-3, -1), (5, 7),
         (4, 4), (0, 0), (3, 6), (-2, 1), (3, 1), (4, 0))
    for i, (a, b) in enumerate(S):
        for fmt in ('netcdf', 'data'):
            c.append(Case('reach-%s-%d-%d' % (fmt, a, b), reach, fmt=fmt,
                          a=a, b=b, kind=i % 4))
    for a, b in ((0, 4), (0, 3), (0, 5), (0, 0), (2, 6), (2, 7), (1, 9),
                 (1, 0)):
        for fmt in ('ascii', 'binary'):
            c.append(Case('reach-%s-%d-%d' % (fmt, a, b), reach, fmt=fmt,
                          a=a, b=b, kind=b % 3))
    # files
    for kind in ('ini', 'yaml'):
        c.append(Case('file-' + kind, lacking, kind=kind, sec='none'))
        for s, k in (('MetSim', None), ('forcing_vars', None),
                     ('domain_vars', None), ('state_vars', None),
                     ('MetSim', 'forcing'), ('MetSim', 'domain'),
                     ('MetSim', 'state'), ('MetSim', 'out_dir'),
                     ('MetSim', 'time_step'), ('forcing_vars', 't_min'),
                     ('domain_vars', 'mask'), ('state_vars', 'prec')):
            c.append(Case('file-%s-%s-%s' % (kind, s, k), lacking, kind=kind,
                          sec=s, key=k))
    if tier == 'thorough':
        for t in STEPS:
            c.append(good('every-%d' % t, ts=t, budget=300))
        for a in range(-3, 9):
            for b in range(-3, 9):
                c.append(Case('all-%d-%d' % (a, b), reach, fmt='netcdf',
                              a=a, b=b))
    return c
