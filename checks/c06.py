"""C06: longwave follows the chosen parameterisation and the daily total."""
import numpy as np

from symx.runner import Case
from . import common as cm, e2e

SB = 5.669e-8
ASSUMPTIONS = ['PCHIP (scipy) keeps between its knots']
BOUNDS = {'temperature': '-50..40 C', 'vapor pressure': '1..5000 Pa',
          'cloud fraction': '0..1', 'daily longwave': '50..500 W m-2',
          'days': '1..2', 'time step': '60, 180, 360 min'}
OUTSIDE = ['temperatures beyond the stated range']


def clear(ctx, opt, e, T):
    """Clear-sky emissivity, vapor pressure e in hPa, T in K."""
    o = opt.upper()
    if o in ('TVA', 'DEFAULT'):
        return 0.74 + 0.0049 * e
    if o == 'ANDERSON':
        return 0.68 + 0.036 * ctx.sqrt(e)
    if o == 'BRUTSAERT':
        return 1.24 * ctx.pow(e / T, 0.14285714)
    if o == 'SATTERLUND':
        return 1.08 * (1 - ctx.exp(-ctx.pow(e, T / 2016)))
    if o == 'IDSO':
        return 0.7 + 5.95e-5 * e * ctx.exp(1500 / T)
    w = 46.5 * e / T
    return 1 - (1 + w) * ctx.exp(-ctx.sqrt(1.2 + 3 * w))


def cloudy(opt, em, c):
    if opt.upper() == 'CLOUD_DEARDORFF':
        return c + (1 - c) * em
    return (1 + 0.17 * c * c) * em


def go(ctx, lw, cloud, n=1, ts=360, t0=2, t1=8, daily=False, free='tvc',
       v=(10, 3000), sub=False, **kw):
    from metsim.disaggregate import disaggregate
    sg = cm.geom(360.5, 1080.5)
    lo = [ctx.real('a%d' % i, t0, t1) if 't' in free else t0
          for i in range(n)]
    hi = [x + (ctx.real('r%d' % i, 2, 8) if 't' in free else 5.0)
          for i, x in enumerate(lo)]
    vp = [ctx.real('v%d' % i, *v) if 'v' in free else 400.0
          for i in range(n)]
    tc = [ctx.real('c%d' % i, 0, 1) if 'c' in free else 0.3
          for i in range(n)]
    df = cm.daily(ctx, n, sg=sg, t_min=lo, t_max=hi, vapor_pressure=vp,
                  tskc=tc)
    L = None
    if daily:
        L = [ctx.real('L%d' % i, 50, 500) for i in range(n)]
        df['longwave'] = cm.col(ctx, L)
    out = disaggregate(df, cm.params(time_step=ts, lw_type=lw, lw_cloud=cloud,
                                     tmax_daylength_fraction=0.5, **kw), sg)
    T, V, C, W = [cm.col_of(out, k) for k in
                  ('temp', 'vapor_pressure', 'tskc', 'longwave')]
    ctx.observe('W', W)
    spd = 1440 // ts
    ctx.prove(len(W) == n * spd, 'number of steps')
    base = []
    for i in range(n * spd):
        K = T[i] + 273.15
        em = cloudy(cloud, clear(ctx, lw, V[i] * 10, K), C[i])
        base.append(em * SB * ctx.pow(K, 4))
        ctx.prove(ctx.isnum(W[i]), 'longwave is there')
        ctx.prove(W[i] > 0, 'longwave is positive')
    if not daily:
        ctx.prove_close(W, base, 'longwave is the formula of the option')
        return
    for d in range(n):
        b = base[d * spd:(d + 1) * spd]
        w = W[d * spd:(d + 1) * spd]
        m = ctx.sum(b) / spd
        for x, y in zip(w, b):
            ctx.prove(ctx.close(x, L[d] * y / m),
                      'longwave keeps the shape of the day')
        ctx.prove(ctx.close(ctx.sum(w) / spd, L[d]),
                  'longwave averages to the daily value')


def run(ctx, lw, cloud, ts=360, daily=True):
    """Whole runs over two cells, daily longwave among the forcings."""
    S = {}

    def f(t, i, j):
        return S.setdefault((t, j), ctx.real('L%d_%d' % (t, j), 50, 500))

    fo = e2e.full(tskc=lambda t, i, j: 0.1 + 0.3 * j + 0.2 * t)
    if daily:
        fo['longwave'] = f
    w = e2e.World(ctx, days=2, shape=(1, 2), forcing=fo)
    ov = {k: {'out_name': k} for k in ('temp', 'vapor_pressure', 'longwave',
                                      'tskc')}
    (o,) = w.run(time_step=ts, out_vars=ov, lw_type=lw,
                 lw_cloud=cloud).values()
    V = {k: o['vars'][k]['data'] for k in ov}
    spd = 1440 // ts
    for j in range(2):
        c = [list(V[k][:, 0, j]) for k in ('temp', 'vapor_pressure', 'tskc',
                                          'longwave')]
        base = [cloudy(cloud, clear(ctx, lw, e * 10, t + 273.15), s) * SB *
                (t + 273.15) ** 4 for t, e, s in zip(*c[:3])]
        for d in range(2):
            b, x = [z[d * spd:(d + 1) * spd] for z in (base, c[3])]
            k = S[d, j] / (sum(b) / spd) if daily else 1.0
            ctx.prove_close(x, [y * k for y in b],
                            'longwave of the run follows the option of the '
                            'run', rtol=1e-5)


OPTS = ['tva', 'anderson', 'brutsaert', 'satterlund', 'idso', 'prata',
        'default']


def cases(tier):
    c = []
    caps = [str.lower, str.upper, str.capitalize]
    for i, o in enumerate(OPTS):
        for j, k in enumerate(('default', 'cloud_deardorff')):
            c.append(Case('%s-%s' % (o, k[:5]), go, lw=caps[i % 3](o),
                          cloud=caps[(i + j) % 3](k),
                          free='tvc' if o != 'satterlund' else 'tvc'))
        c.append(Case('%s-hot' % o, go, lw=o, t0=24, t1=32, v=(200, 5000),
                      cloud=('default', 'cloud_deardorff')[i % 2]))
        c.append(Case('%s-cold' % o, go, lw=o, t0=-50, t1=-42, v=(1, 60),
                      cloud=('default', 'cloud_deardorff')[(i + 1) % 2]))
    c += [Case('cold', go, lw='prata', cloud='cloud_deardorff', t0=-25,
               t1=-18, v=(10, 300)),
          Case('cold-idso', go, lw='Idso', cloud='default', t0=-25,
               t1=-18, v=(10, 300)),
          Case('hot', go, lw='PRATA', cloud='DEFAULT', t0=22, t1=30,
               v=(500, 4000)),
          Case('daily-prata', go, lw='prata', cloud='cloud_deardorff', n=2,
               daily=True, free='c'),
          Case('daily-tva', go, lw='tva', cloud='default', n=2, daily=True,
               free='c', ts=180),
          Case('daily-brutsaert', go, lw='brutsaert', cloud='default',
               daily=True, free='v', v=(100, 500)),
          Case('daily-60', go, lw='anderson', cloud='default', n=2, ts=60,
               daily=True, free='', period_ending=True),
          Case('two-days', go, lw='tva', cloud='cloud_deardorff', n=2,
               ts=180),
          Case('run-daily', run, lw='TVA', cloud='Default'),
          Case('run-daily-d', run, lw='Prata', cloud='Cloud_Deardorff',
               ts=180),
          Case('run-plain', run, lw='Satterlund', cloud='DEFAULT',
               daily=False)]
    if tier == 'thorough':
        for o in OPTS:
            for k in ('default', 'cloud_deardorff'):
                for i, t in enumerate((-30, -15, 0, 10, 25)):
                    c.append(Case('%s-%s-%d' % (o, k[:5], i), go, lw=o,
                                  cloud=k, t0=t, t1=t + 12, n=1, ts=180,
                                  v=(10, 600) if t < 0 else (100, 3000),
                                  budget=300))
                c.append(Case('%s-%s-daily' % (o, k[:5]), go, lw=o, cloud=k,
                              n=2, daily=True, free='c', budget=300))
    return c
