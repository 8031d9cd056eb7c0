"""C16: per-cell text and binary forcings land on their own cell."""
import itertools
import os

import numpy as np
import pandas as pd

from symx.runner import Case
from . import cells as cl, e2e

ASSUMPTIONS = ['latitudes and longitudes in file names are exact coordinates '
               'of the domain']
BOUNDS = {'contents': 'every number -100..500 (text), every byte (binary)',
          'files': 'up to 6, every order of up to 4 of them', 'cells': '1..6',
          'days': '1..3', 'variables': '1..6'}
OUTSIDE = ['files with too few rows', 'missing or malformed numbers']

ALL = ['prec', 't_max', 't_min', 'wind', 'tskc', 'shortwave']
LATS, LONS = (48.1875, 48.3125), (-120.6875, -120.5625, -120.4375)


def fname(la, lo, prefix='data', fmt='%r_%r'):
    return '%s_' % prefix + fmt % (la, lo)


class Files:
    """Files of cells, with symbolic contents."""

    def __init__(self, ctx, kind, names, days, extra=0, scale=None, sep='\t'):
        self.ctx, self.kind, self.names = ctx, kind, names
        self.days, self.extra, self.sep = days, extra, sep
        self.scale = scale or ('100 signed', 100.0, True)
        self.cells = {}

    def write(self, d, name, tag):
        ctx, p = self.ctx, os.path.join(d, name)
        if self.kind == 'ascii':
            rows = [[ctx.real('%s_%s_%d' % (k, tag, t), -100, 500)
                     for k in self.names] for t in range(self.days)]
            self.cells[tag] = {k: [r[i] for r in rows]
                               for i, k in enumerate(self.names)}
            rows += [[-77.0] * len(self.names)] * self.extra
            return cl.text(ctx, p, rows, self.sep)
        W = {(t, k): cl.word(ctx, '%s_%s_%d' % (k, tag, t))
             for t in range(self.days) for k in self.names}
        self.cells[tag] = {k: [cl.value(ctx, W[t, k], *self.scale[1:])
                               for t in range(self.days)]
                           for k in self.names}
        data = [b for t in range(self.days) for k in self.names
                for b in W[t, k]]
        return cl.binary(ctx, p, data + [3] * (2 * len(self.names) *
                                               self.extra))

    def vars(self):
        return {k: k if self.kind == 'ascii' else self.scale[0]
                for k in self.names}


class Dir:
    def __init__(self, ctx, tag='w'):
        self.dir = os.path.join('/symx/fs' if ctx.sym else ctx.tmp, tag)


def place(ctx, kind, lats=LATS, lons=LONS, mask=None, names=ALL[:3], days=2,
          have=None, strange=(), perm=False, extra=0, prefix='data',
          fmt='%r_%r', sep='\t', scale=None, flip=False,
          start='1949-01-01'):
    """have: cells with a file; strange: further file names."""
    from metsim import io
    F = Files(ctx, kind, list(names), days, extra, scale, sep)
    d = cl.place(ctx, Dir(ctx))
    grid = [(i, j) for i in range(len(lats)) for j in range(len(lons))]
    have = grid if have is None else have
    files = [F.write(d, fname(lats[i], lons[j], prefix, fmt),
                     '%d%d' % (i, j)) for i, j in have]
    for n, s in enumerate(strange):
        files.insert(min(2 * n, len(files)), F.write(d, s, 's%d' % n))
    if perm:
        k = ctx.choice('order', [list(p) for p in itertools.permutations(
            range(len(files)))])
        files = [files[i] for i in k]
    dom = cl.domain(ctx, lats, lons, mask)
    if flip:
        dom = dom.transpose('lon', 'lat')
    idx = pd.date_range(start, periods=days)
    ds = io.read_met_data(dict(
        forcing_fmt=kind, forcing=files, start=idx[0].to_pydatetime(),
        stop=idx[-1].to_pydatetime(), calendar='standard',
        forcing_vars=F.vars()), dom)
    ctx.prove(list(ds.indexes['time']) == list(idx), 'the days of the run')
    m = np.ones((len(lats), len(lons))) if mask is None else \
        np.asarray(mask, dtype=float)
    for i, j in grid:
        for k in names:
            a = ds[k].transpose('time', 'lat', 'lon')
            got = list(np.asarray(a.values)[:, i, j])
            if (i, j) in have and m[i, j] > 0:
                ctx.prove(len(got) == days, 'one value per day')
                ctx.prove_close(got, F.cells['%d%d' % (i, j)][k],
                                'contents of the file of the cell')
            else:
                ctx.prove(not any(ctx.isnum(x) for x in got),
                          'cells without a file stay empty')


def run(ctx, kind, order=('prec', 't_max', 't_min', 'wind', 'tskc',
                          'shortwave'), mask=None, rev=False, chunks=None,
        time_step=1440, extra=0, via=None):
    """A whole run on a directory of files, read back by cell."""
    lats, lons = LATS, LONS[:2]
    m = np.ones((2, 2)) if mask is None else np.asarray(mask, dtype=float)
    days = 2
    w = e2e.World(ctx, days=days, shape=(2, 2), start='2001-03-01',
                  coords=dict(lat=lats, lon=lons), mask=mask)
    d = cl.place(ctx, w)
    sc = {'prec': 40.0, 'wind': 100.0}
    S, files = {}, []
    fixed = lambda k, t, i, j: {
        't_min': -3 + .25 * i + .5 * j + t, 't_max': 8 + .5 * i + t - j,
        'tskc': .25 * i + .1 * j, 'shortwave': 120 + 4 * i + 2 * j + t}[k]
    for i, j in np.ndindex(2, 2):
        rows, data = [], []
        for t in range(days + extra):
            row = []
            for k in order:
                if k in sc and t < days:
                    if kind == 'ascii':
                        v = ctx.real('%s_%d%d%d' % (k, t, i, j), 0, 300)
                        row.append(v)
                    else:
                        b = cl.word(ctx, '%s_%d%d%d' % (k, t, i, j))
                        v = cl.value(ctx, b, sc[k], False)
                        data += b
                    S[k, t, i, j] = v
                else:
                    v = 0 if k in sc else fixed(k, t, i, j)
                    row.append(v)
                    data += cl.words(ctx, [round(v * 100)])
            rows.append(row)
        p = os.path.join(d, fname(lats[i], lons[j]))
        files.append(cl.text(ctx, p, rows) if kind == 'ascii'
                     else cl.binary(ctx, p, data))
    if rev:
        files = files[::-1]
    fv = {k: k if kind == 'ascii' else '%g unsigned' % sc[k] if k in sc
          else '100 signed' for k in order}
    names = ('prec', 'wind') + (('t_min', 't_max') if time_step == 1440
                                else ('tskc',))
    outs = w.run(forcing_fmt=kind, forcing=files, forcing_vars=fv,
                 method='passthrough', time_step=time_step,
                 chunks=chunks or {},
                 constant_vars={k: v for k, v in e2e.FULL.items()
                                if k not in order},
                 out_vars={k: {'out_name': k} for k in names})
    (o,) = outs.values()
    n = 1440 // time_step
    for i, j in np.ndindex(2, 2):
        for k in names:
            got = list(o['vars'][k]['data'][:, i, j])
            if not m[i, j] > 0:
                ctx.prove(not any(ctx.isnum(x) and
                                  (hasattr(x, 't') or abs(x) < 1e30)
                                  for x in got),
                          'masked cells stay empty')
                continue
            want = [S[k, t, i, j] if k in sc else fixed(k, t, i, j)
                    for t in range(days) for _ in range(n)]
            if k == 'prec':
                want = [x / n for x in want]
            ctx.prove_close(got, want, k + ' of the file of the cell',
                            rtol=1e-5)


def cases(tier):
    out = ('data_10.5_20.5', 'data_48.1875_-99.0625', 'notes')
    c = []
    for kind in ('ascii', 'binary'):
        n = kind + '-'
        c += [Case(n + 'grid', place, kind=kind),
              Case(n + 'order', place, kind=kind, lons=LONS[:2], perm=True,
                   names=ALL[:2], budget=120),
              Case(n + 'order-strange', place, kind=kind, lats=LATS[:1],
                   perm=True, names=ALL[:2], strange=('data_10.5_20.5',),
                   lons=LONS[:2], budget=120),
              Case(n + 'outside', place, kind=kind, strange=out),
              Case(n + 'masked', place, kind=kind,
                   mask=[[1, 0, 2], [-1, float('nan'), 1]]),
              Case(n + 'some', place, kind=kind,
                   have=[(1, 1), (0, 2), (1, 0)]),
              Case(n + 'six-variables', place, kind=kind, names=ALL[::-1],
                   lons=LONS[:2]),
              Case(n + 'one-variable', place, kind=kind, names=['prec']),
              Case(n + 'trailing', place, kind=kind, days=3, extra=2),
              Case(n + 'one-day', place, kind=kind, days=1, extra=1),
              Case(n + 'prefix', place, kind=kind, prefix='full_data_v2'),
              Case(n + 'padded', place, kind=kind, fmt='%.5f_%.5f'),
              Case(n + 'south', place, kind=kind, lats=(-0.5, 0.5),
                   lons=(0.5, 179.5), fmt='%.2f_%.2f'),
              Case(n + 'descending', place, kind=kind, lats=LATS[::-1],
                   lons=LONS[::-1]),
              Case(n + 'flipped', place, kind=kind, flip=True),
              Case(n + 'leap', place, kind=kind, days=3, start='2004-02-28'),
              Case(n + 'run', run, kind=kind),
              Case(n + 'run-mask', run, kind=kind, mask=[[1, 1], [0, 1]],
                   rev=True, order=ALL[::-1], extra=2),
              Case(n + 'run-chunks', run, kind=kind, chunks={'lat': 1},
                   time_step=360)]
    c += [Case('ascii-spaces', place, kind='ascii', sep='   '),
          Case('binary-unsigned', place, kind='binary',
               scale=('40 unsigned', 40.0, False), lons=LONS[:2])]
    if tier == 'thorough':
        for kind in ('ascii', 'binary'):
            c += [Case(kind + '-order-4', place, kind=kind, perm=True,
                       lons=LONS[:2], strange=('data_1.5_2.5',),
                       names=ALL[:2], budget=800),
                  Case(kind + '-big', place, kind=kind,
                       lats=tuple(40 + .5 * i for i in range(6)),
                       lons=tuple(-100 + .25 * i for i in range(6)),
                       days=5, names=ALL, budget=600)]
    return c
