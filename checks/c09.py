"""C09: the result does not depend on how the domain is chunked."""
import itertools

import numpy as np

from symx.runner import Case
from . import e2e

ASSUMPTIONS = ['chunks run one after another or interleaved at their reading, '
               'computing and writing steps']
BOUNDS = {'size of a dimension': '1..9 (1..14 thorough)',
          'size of a chunk': '1..12', 'dimensions': '1..3',
          'cells of a run': 'up to 12', 'days of a run': '2'}
OUTSIDE = ['several processes writing at once']


def partition(ctx, dims, top=9, cap=12, skip=(), floats=False,
              flip=False):
    """Every cell lies in exactly one slice."""
    from metsim.metsim import chunk_domain
    D = {d: ctx.int('n_' + d, 1, top) for d in dims}
    C = {d: ctx.int('c_' + d, 1, cap) for d in dims if d not in skip}
    given = {k: (str(v) if floats else v) for k, v in C.items()}
    if flip:
        given = {k: given[k] for k in reversed(list(given))}
    sl = chunk_domain(given, D)
    ctx.observe('slices', len(sl))
    at = {d: ctx.int('x_' + d, 0, top - 1) for d in dims}
    for d in dims:
        ctx.assume(at[d] < D[d])
    hits = []
    for s in sl:
        ok = True
        for d in dims:
            r = s.get(d, slice(None))
            if r.step not in (None, 1):
                ctx.prove(False, 'slices are contiguous')
            a = 0 if r.start is None else r.start
            b = D[d] if r.stop is None else r.stop
            ctx.prove(ctx.band(0 <= a, a < b), 'slices run forwards')
            ok = ctx.band(ok, a <= at[d], at[d] < b)
        hits.append(ctx.ite(ok, 1, 0))
    n = ctx.sum(hits)
    ctx.prove(ctx.le(1, n), 'every cell is in a chunk')
    ctx.prove(ctx.le(n, 1), 'no cell is in two chunks')


SUB = ('temp', 'prec', 'shortwave', 'wind', 'tskc', 'vapor_pressure',
       'longwave', 'rel_humid')
DAY = ('t_min', 't_max', 't_day', 'prec', 'vapor_pressure', 'shortwave',
       'tskc', 'pet', 'wind', 'daylength')


def world(ctx, S, tag, shape, dims, mask=None, **kw):
    def f(name, lo, hi):
        def g(t, *i):
            k = (name, t) + i
            if k not in S:
                S[k] = ctx.real('_'.join(map(str, k)), lo, hi)
            return S[k]
        return g

    def c(name, base):
        return lambda t, *i: base + t + 0.37 * sum(
            (3 ** k) * v for k, v in enumerate(i))
    elev = lambda *i: 100.0 + 150.0 * sum((2 ** k) * v
                                          for k, v in enumerate(i))
    return e2e.World(ctx, days=2, start='2001-02-27', shape=shape, dims=dims,
                     mask=mask, elev=elev,
                     forcing=e2e.full(prec=f('p', 0, 50),
                                      t_min=c('a', 2.0),
                                      t_max=c('b', 12.0),
                                      wind=f('w', 0, 20),
                                      tskc=f('c', 0, 1),
                                      shortwave=f('s', 0, 400)),
                     state=dict(prec=f('q', 0, 9) if kw.pop('qs', False)
                                else (lambda t, *i: 1.0 + sum(i)),
                                t_min=lambda t, *i: 3.0 + sum(i),
                                t_max=lambda t, *i: 13.0 + 2 * sum(i)),
                     tag=tag, **kw)


def reorder(order):
    """Let the chunks run in another order."""
    from metsim.metsim import MetSim
    base = MetSim.__dict__.get('slices')
    if not isinstance(base, property):
        return

    def slices(self):
        s = list(base.fget(self))
        if order == 'reversed':
            return s[::-1]
        return s[1::2] + s[0::2]
    MetSim.slices = property(slices)


def interleave():
    """Let every chunk read before any computes, and write last first."""
    import metsim.metsim as mm
    from metsim.metsim import MetSim
    todo = []

    def steps(params, locks, dslice=None):
        todo.append((params, locks, dslice))

    def go():
        ms = []
        for params, locks, dslice in todo:
            params['is_worker'] = True
            m = MetSim(params, domain_slice=dslice)
            m.load_inputs()
            ms.append((m, locks))
        for m, _ in ms:
            m.run_slice()
        for m, locks in reversed(ms):
            m.write_chunk(locks=locks)
    return steps, go


def same(ctx, A, B, what):
    ctx.prove(sorted(A) == sorted(B), 'the same files ' + what)
    for f in A:
        va, vb = A[f]['vars'], B[f]['vars']
        ctx.prove(sorted(va) == sorted(vb), 'the same variables ' + what)
        for v in va:
            ctx.prove(va[v]['dims'] == vb[v]['dims'] and
                      repr(sorted(va[v]['attrs'].items())) ==
                      repr(sorted(vb[v]['attrs'].items())),
                      'the same layout ' + what)
            a, b = va[v]['data'].ravel(), vb[v]['data'].ravel()
            ctx.prove(len(a) == len(b), 'the same size ' + what)
            a, b = list(a), list(b)
            na = [i for i, x in enumerate(a) if not ctx.isnum(x)]
            nb = [i for i, x in enumerate(b) if not ctx.isnum(x)]
            ctx.prove(na == nb, 'the same cells are empty ' + what)
            keep = [i for i in range(len(a)) if i not in set(na)]
            ctx.prove_close([a[i] for i in keep], [b[i] for i in keep],
                            'the same values ' + what, rtol=1e-9)


def run(ctx, shape=(3, 2), dims=('lat', 'lon'), sizes=None, mask=None,
        order=None, daily=False, ts=360, inter=False, flip=False, **kw):
    S = {}
    names = DAY if daily else SUB
    ov = {k: {'out_name': 'o_' + k} for k in names}
    args = dict(time_step=1440 if daily else ts, out_vars=ov)
    args.update(kw)
    chunks = {}
    for d, n in zip(dims, shape):
        c = ctx.choice('chunk_' + d, sizes[d] if sizes else
                       [0] + list(range(1, n + 2)))
        if c:
            chunks[d] = c
    if flip:
        chunks = {d: chunks[d] for d in reversed(list(chunks))}
    A = world(ctx, S, 'whole', shape, dims, mask).run(**args)
    if order:
        reorder(order)
    if inter:
        import metsim.metsim as mm
        if all(hasattr(mm.MetSim, k) for k in
               ('load_inputs', 'run_slice', 'write_chunk')) and \
                hasattr(mm, 'wrap_run_slice'):
            steps, go = interleave()
            old = mm.wrap_run_slice
            mm.wrap_run_slice = steps
            try:
                w = world(ctx, S, 'chunked', shape, dims, mask)
                w.run(**dict(args, chunks=chunks))
                go()
            finally:
                mm.wrap_run_slice = old
            B = w.outputs()
        else:
            return
    else:
        B = world(ctx, S, 'chunked', shape, dims, mask).run(
            **dict(args, chunks=chunks))
    for f in A:
        ctx.observe(f, [v for v in
                        A[f]['vars']['o_prec']['data'][:, 0].ravel()[:4]])
    same(ctx, A, B, 'as without chunks')
    # and every cell that is not masked holds its own value
    m = np.ones(shape) if mask is None else np.asarray(mask)
    for f, o in B.items():
        if len(B) > 1 or kw.get('utc_offset'):
            break
        d = o['vars']['o_wind']['data']
        for i in np.ndindex(*shape):
            got = list(d[(slice(None),) + i])
            if m[i] > 0:
                n = len(got) // 2
                ctx.prove_close(got, [S[('w', t) + i] for t in range(2)
                                      for _ in range(n)],
                                'every chunk is written to its own cells')


def cases(tier):
    c = [Case('one', partition, dims=['lat'], max_paths=2000),
         Case('two', partition, dims=['lat', 'lon'], top=4, cap=5),
         Case('partial', partition, dims=['lat', 'lon'], top=6,
              skip=('lon',)),
         Case('three', partition, dims=['a', 'b', 'c'], top=2, cap=3),
         Case('two-swapped', partition, dims=['lat', 'lon'], top=3, cap=4,
              flip=True),
         Case('three-swapped', partition, dims=['b', 'a', 'c'], top=2, cap=2,
              flip=True),
         Case('run-swapped', run, flip=True, shape=(2, 3), daily=True,
              sizes=dict(lat=[1, 2], lon=[1, 2])),
         Case('run-named', run, flip=True, shape=(2, 3), dims=('y', 'x'),
              daily=True, sizes=dict(y=[1, 2], x=[1, 2])),
         Case('run-other', run, shape=(3, 2), dims=('b', 'a'), daily=True,
              sizes=dict(b=[1, 2], a=[1])),
         Case('run', run, sizes=dict(lat=[0, 1, 2, 4], lon=[0, 1, 3]), budget=150),
         Case('run-daily', run, daily=True),
         Case('run-1d', run, shape=(5,), dims=('hru',)),
         Case('run-masked', run, mask=[[0, 0], [1, 0], [1, 1]],
              sizes=dict(lat=[1, 2], lon=[0, 1])),
         Case('run-reversed', run, order='reversed',
              sizes=dict(lat=[1, 2], lon=[1])),
         Case('run-mixed', run, order='mixed', shape=(2, 3),
              sizes=dict(lat=[1], lon=[1, 2])),
         Case('run-interleaved', run, inter=True,
              sizes=dict(lat=[1, 2], lon=[1])),
         Case('run-files', run, out_freq='D', sizes=dict(lat=[1, 2],
                                                         lon=[0, 1])),
         Case('run-utc', run, utc_offset=True, period_ending=True,
              sizes=dict(lat=[2], lon=[0, 1])),
         Case('run-4x3', run, shape=(4, 3), daily=True,
              sizes=dict(lat=[3], lon=[2]))]
    if tier == 'thorough':
        c += [Case('one-14', partition, dims=['lat'], top=14, cap=16,
                   budget=300),
              Case('two-7', partition, dims=['lat', 'lon'], top=7, cap=8,
                   budget=800),
              Case('run-5x4', run, shape=(5, 4), daily=True, budget=800,
                   sizes=dict(lat=[0, 1, 2, 3, 4, 6],
                              lon=[0, 1, 2, 3, 5])),
              Case('run-3x3-rev', run, shape=(3, 3), order='reversed',
                   budget=600),
              Case('run-3x3-inter', run, shape=(3, 3), inter=True,
                   budget=600)]
    return c
