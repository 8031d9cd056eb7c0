"""C31: the same forcings in another format give the same output."""
import os
from collections import OrderedDict

import numpy as np

from symx.runner import Case
from . import cells as cl, e2e

ASSUMPTIONS = []
BOUNDS = {'precipitation': '0..300 mm, or every two bytes by 40', 'wind':
          '0..60 m/s, or every two bytes by 100', 'other quantities':
          'fixed per cell and day', 'cells': '1..4', 'days': '1..3'}
OUTSIDE = ['rounding of binary forcings, which the values compared have '
           'already']
ORDER = ('prec', 't_max', 't_min', 'wind', 'tskc', 'shortwave')
SCALE = dict(prec=40.0, wind=100.0)
RANGE = dict(prec=(0, 300), wind=(0, 60))
SUB = ('temp', 'prec', 'shortwave', 'vapor_pressure', 'tskc', 'wind')
DAY = ('t_min', 't_max', 'prec', 'shortwave', 'tskc', 'wind', 'pet')


class Data:
    """Values of the forcings; words are the bytes they are stored as."""

    def __init__(self, ctx, free, binary):
        self.ctx, self.free, self.binary = ctx, free, binary
        self.v, self.b = {}, {}

    def at(self, k, t, *i):
        q = (k, t) + i
        if q in self.v:
            return self.v[q]
        tag = '%s_%s' % (k, '_'.join(map(str, q[1:])))
        if k in self.free:
            if self.binary:
                self.b[q] = cl.word(self.ctx, tag)
                self.v[q] = cl.value(self.ctx, self.b[q], SCALE[k], False)
            else:
                self.v[q] = self.ctx.real(tag, *RANGE[k])
        else:
            s = sum((n + 1) * x for n, x in enumerate(i)) if i else 0
            self.v[q] = dict(prec=1.5, wind=3.25, t_min=-3 + .25 * s + t,
                             t_max=8 + .5 * s + t, tskc=.25 + .05 * s,
                             shortwave=120 + 4 * s + 2 * t)[k]
            self.b[q] = cl.words(self.ctx, [round(
                self.v[q] * SCALE.get(k, 100.0))])
        return self.v[q]

    def word(self, k, t, *i):
        self.at(k, t, *i)
        return self.b[(k, t) + i]


def forcing(ctx, w, D, fmt, days, shape, order, extra, mask):
    """Entries of the configuration for one format."""
    if fmt == 'netcdf':
        return {}
    if fmt == 'data':
        return dict(forcing_fmt='data', forcing=w.met)
    d = cl.place(ctx, w)
    files = []
    for i in np.ndindex(*shape):
        if mask is not None and not mask[i[0]][i[1]]:
            continue
        rows, data = [], []
        for t in range(days):
            rows.append([D.at(k, t, *i) for k in order])
            for k in order:
                if fmt == 'binary':
                    data += D.word(k, t, *i)
        rows += [[-77.0] * len(order)] * extra
        data += [3] * (2 * len(order) * extra)
        p = os.path.join(d, 'data_%r_%r' % (w.coord('lat', i[0]),
                                            w.coord('lon', i[1])))
        files.append(cl.text(ctx, p, rows) if fmt == 'ascii' else
                     cl.binary(ctx, p, data))
    return dict(forcing_fmt=fmt, forcing=files, forcing_vars=OrderedDict(
        (k, k if fmt == 'ascii' else '%g %s' % (
            SCALE.get(k, 100.0), 'signed' if k in ('t_min', 't_max') else
            'unsigned')) for k in order))


def go(ctx, fmts=('netcdf', 'ascii'), free=('prec', 'wind'), days=2,
       shape=(2, 2), ts=1440, order=ORDER, mask=None, extra=0, names=None,
       start='2001-03-01', coords=None, consts=True, **kw):
    D = Data(ctx, free, 'binary' in fmts)
    names = names or (DAY if ts == 1440 else SUB)
    runs = []
    for fmt in fmts:
        w = e2e.World(ctx, days=days, shape=shape, start=start, tag=fmt,
                      mask=mask, coords=coords, objects=True, forcing={
                          k: (lambda t, *i, k=k: D.at(k, t, *i))
                          for k in order})
        cfg = w.config()
        cfg.update(forcing(ctx, w, D, fmt, days, shape, order, extra, mask))
        cfg.update(method='passthrough', time_step=ts, out_vars={
            k: {'out_name': k} for k in names})
        if consts:
            cfg['constant_vars'] = {k: v for k, v in e2e.FULL.items()
                                    if k not in order}
        cfg.update(kw)
        from metsim.metsim import MetSim
        MetSim(cfg).run()
        runs.append(w.outputs())
    a = runs[0]
    for fmt, b in zip(fmts[1:], runs[1:]):
        ctx.prove(sorted(a) == sorted(b), 'the same files')
        for f in set(a) & set(b):
            ctx.prove(set(a[f]['vars']) == set(b[f]['vars']),
                      'the same variables')
            for k in set(a[f]['vars']) & set(b[f]['vars']):
                x, y = a[f]['vars'][k], b[f]['vars'][k]
                ctx.prove(x['dims'] == y['dims'] and
                          x['dtype'] == y['dtype'] and
                          {q: repr(v) for q, v in x['attrs'].items()} ==
                          {q: repr(v) for q, v in y['attrs'].items()},
                          'described in the same way')
                x = list(np.asarray(x['data']).ravel())
                y = list(np.asarray(y['data']).ravel())
                ctx.prove(len(x) == len(y), 'of the same size')
                nx = [j for j, v in enumerate(x) if not ctx.isnum(v)]
                ny = [j for j, v in enumerate(y) if not ctx.isnum(v)]
                ctx.prove(nx == ny, 'missing at the same places')
                z = set(nx) | set(ny)
                ctx.prove_close([v for j, v in enumerate(y) if j not in z],
                                [v for j, v in enumerate(x) if j not in z],
                                '%s as from another format' % k, rtol=1e-9)
    ctx.observe('first', list(a.values())[0]['vars']['wind']['data'][0]
                .ravel()[0])


def cases(tier):
    tri = ('netcdf', 'ascii', 'data')
    all_ = ('netcdf', 'ascii', 'data', 'binary')
    turned = ORDER[::-1]
    c = [Case('daily', go, fmts=tri),
         Case('steps', go, fmts=tri, ts=360),
         Case('bytes', go, fmts=all_, free=('wind',)),
         Case('bytes-prec', go, fmts=('netcdf', 'binary'), free=('prec',),
              shape=(1, 2)),
         Case('bytes-steps', go, fmts=all_, ts=180, free=('wind',),
              shape=(1, 1)),
         Case('turned', go, fmts=tri, order=turned, shape=(1, 2)),
         Case('turned-bytes', go, fmts=('netcdf', 'binary'), order=turned,
              shape=(1, 2), free=('wind',)),
         Case('mask', go, fmts=('ascii', 'netcdf'), mask=[[1, 0], [1, 1]]),
         Case('mask-large', go, fmts=('ascii', 'netcdf'),
              mask=[[2, 0], [1, 3]]),
         Case('longer', go, fmts=tri, extra=2, free=('wind',)),
         Case('longer-bytes', go, fmts=('netcdf', 'binary'), extra=2,
              free=('wind',), days=1),
         Case('chunks', go, fmts=tri, chunks={'lat': 1}),
         Case('split', go, fmts=tri, out_freq='D', days=3),
         Case('utc', go, fmts=tri, ts=60, utc_offset=True, shape=(1, 2),
              coords=dict(lon=[100.3, -60.0])),
         Case('leap', go, fmts=tri, start='2004-02-28', days=3, ts=360),
         Case('leap-bytes', go, fmts=('data', 'binary'), start='2004-02-28',
              days=3, free=('wind',), shape=(1, 1)),
         Case('new-year', go, fmts=tri, start='2003-12-30', days=3, ts=360,
              shape=(1, 1)),
         Case('estimated', go, fmts=tri, order=('prec', 't_max', 't_min',
                                                'wind'), method='mtclim',
              free=('wind',), consts=False),
         Case('estimated-bytes', go, fmts=all_, order=('prec', 't_max',
                                                       't_min', 'wind'),
              method='mtclim', free=('wind',), consts=False, shape=(1, 1),
              days=2, ts=360),
         Case('south', go, fmts=tri, coords=dict(lat=[-10.5, -20.25],
                                                 lon=[-0.5, -70.125])),
         Case('down', go, fmts=tri, coords=dict(lat=[60.5, 60.25],
                                                lon=[3.0, 2.0]))]
    if tier == 'thorough':
        for n in (1, 3, 5):
            for st in ('2001-03-01', '2004-02-27', '2003-12-29'):
                c.append(Case('all-%d-%s' % (n, st), go, fmts=all_, days=n,
                              start=st, free=('wind', 'prec'), budget=600))
    return c
