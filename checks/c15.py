"""C15: binary forcings are decoded value by value."""
import os

import numpy as np
import pandas as pd

from symx.runner import Case
from . import cells as cl, e2e

ASSUMPTIONS = ['files hold at least one word per variable and day']
BOUNDS = {'bytes': 'every value 0..255', 'variables': '1..7',
          'days': '1..5 (1..40 thorough)', 'trailing bytes': '0..9',
          'scale': '40, 100, 1, 0.5, 1000, -10, 2.5e2, 1e-3'}
OUTSIDE = ['files that are too short', 'big-endian files']

NAMES = ['prec', 't_max', 't_min', 'wind', 'tskc', 'shortwave',
         'vapor_pressure']


class Dir:
    def __init__(self, ctx, tag='w'):
        base = '/symx/fs' if ctx.sym else ctx.tmp
        self.dir = os.path.join(base, tag)


def decode(ctx, n_vars, n_days, forms, order=None, extra=0,
           start='1949-01-01', fname='data_48.1875_-120.6875'):
    """forms: (scale text, scale, signed) cycled over the variables."""
    from metsim import io
    names = [NAMES[i] for i in (order or range(n_vars))]
    fm = [forms[i % len(forms)] for i in range(n_vars)]
    W = [[cl.word(ctx, 'b%d_%d' % (d, i)) for i in range(n_vars)]
         for d in range(n_days)]
    data = [b for day in W for w in day for b in w] + [
        ctx.int('x%d' % i, 0, 255) for i in range(extra)]
    p = cl.binary(ctx, os.path.join(cl.place(ctx, Dir(ctx)), fname), data)
    idx = pd.date_range(start, periods=n_days)
    ds = io.read_binary(p, start=idx[0].to_pydatetime(),
                        stop=idx[-1].to_pydatetime(), calendar='standard',
                        var_dict={k: f[0] for k, f in zip(names, fm)})
    ctx.prove(list(ds.indexes['time']) == list(idx), 'one value per day')
    for i, (k, f) in enumerate(zip(names, fm)):
        got = list(np.asarray(ds[k].values).reshape(n_days))
        for d in range(n_days):
            ctx.prove(ctx.close(got[d], cl.value(ctx, W[d][i], *f[1:])),
                      'value of the variable and the day at its position')
        if i == 0:
            ctx.observe('first', got)


def run(ctx, order, forms, n_days=2, extra=0, prec='f8', time_step=360):
    """A whole run on a directory of files."""
    w = e2e.World(ctx, days=n_days, start='2001-03-01', shape=(1, 2),
                  coords=dict(lat=[48.1875], lon=[-120.6875, -120.5625]))
    d = cl.place(ctx, w)
    free = ('prec', 'wind')
    fixed = {'t_min': -3.25, 't_max': 8.5, 'tskc': 0.25, 'shortwave': 120.0,
             'vapor_pressure': 500.0}
    W, files = {}, []
    for j, lon in enumerate(w.coords['lon']):
        data = []
        for t in range(n_days):
            for k in order:
                sc, signed = forms[k][1:]
                if k in free:
                    # keep precipitation and wind non-negative
                    b = cl.word(ctx, '%s%d_%d' % (k, t, j))
                    if signed:
                        ctx.assume(b[1] < 128)
                    W[k, t, j] = b
                    data += b
                else:
                    data += cl.words(ctx, [round(fixed[k] * sc)])
        data += [7] * extra
        files.append(cl.binary(ctx, os.path.join(
            d, 'data_48.1875_%r' % lon), data))
    outs = w.run(forcing_fmt='binary', forcing=files,
                 forcing_vars={k: forms[k][0] for k in order},
                 method='passthrough', time_step=time_step,
                 constant_vars={k: v for k, v in e2e.FULL.items()
                                if k not in order},
                 out_vars={k: {'out_name': k} for k in ('prec', 'wind')})
    (o,) = outs.values()
    n = 1440 // time_step
    for j in range(2):
        for k in free:
            got = list(o['vars'][k]['data'][:, 0, j])
            want = [cl.value(ctx, W[k, t, j], *forms[k][1:])
                    for t in range(n_days) for _ in range(n)]
            if k == 'prec':
                want = [x / n for x in want]
            ctx.prove_close(got, want, k + ' of the file of the cell')


F = {'u40': ('40 unsigned', 40.0, False), 's100': ('100.0 signed', 100., True),
     'u1': ('1 unsigned', 1.0, False), 's.5': ('0.5 signed', .5, True),
     's1000': ('1000. signed', 1e3, True), 's-10': ('-10 signed', -10., True),
     'u250': ('2.5e2  unsigned', 250., False),
     'u.001': ('1e-3 unsigned', 1e-3, False)}


def cases(tier):
    vic = [F['u40'], F['s100'], F['s100'], F['s100']]
    forms = dict(prec=F['u40'], t_max=F['s100'], t_min=F['s100'],
                 wind=F['s100'])
    c = [Case('vic', decode, n_vars=4, n_days=3, forms=vic),
         Case('vic-reordered', decode, n_vars=4, n_days=2, forms=vic[::-1],
              order=[3, 2, 0, 1]),
         Case('one', decode, n_vars=1, n_days=4, forms=[F['s100']]),
         Case('two', decode, n_vars=2, n_days=3, forms=[F['u1'], F['s.5']],
              extra=4),
         Case('three', decode, n_vars=3, n_days=2, extra=6,
              forms=[F['s1000'], F['u250'], F['s-10']], order=[2, 1, 0]),
         Case('five', decode, n_vars=5, n_days=2, extra=1,
              forms=[F['u.001'], F['s100'], F['u40']]),
         Case('six', decode, n_vars=6, n_days=2, forms=[F['u40'], F['s100']],
              extra=2, start='2004-02-28'),
         Case('seven', decode, n_vars=7, n_days=2, forms=[F['s100']],
              fname='a_b_c_-12.5_7.5'),
         Case('one-day', decode, n_vars=4, n_days=1, forms=vic, extra=8),
         Case('all-unsigned', decode, n_vars=2, n_days=2, forms=[F['u1']],
              extra=9),
         Case('run', run, order=['prec', 't_max', 't_min', 'wind'],
              forms=forms, budget=120),
         Case('run-order', run, order=['wind', 't_min', 'prec', 't_max'],
              forms=dict(forms, prec=F['u250'], wind=F['s1000']), extra=6,
              budget=120)]
    if tier == 'thorough':
        for n in range(1, 8):
            for days in (1, 2, 7, 40):
                c.append(Case('n%d-d%d' % (n, days), decode, n_vars=n,
                              n_days=days, forms=[F['u40'], F['s100'],
                                                  F['s1000']],
                              extra=(n * days) % 7, budget=300))
        for k in F:
            c.append(Case('scale-' + k, decode, n_vars=3, n_days=3,
                          forms=[F[k], F['s100']], budget=300))
        c.append(Case('run-long', run, order=['prec', 't_max', 't_min',
                                              'wind'], forms=forms, n_days=6,
                      time_step=60, budget=600))
    return c
