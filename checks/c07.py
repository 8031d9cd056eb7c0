"""C07: the estimated daily variables satisfy the MT-CLIM equations."""
import numpy as np

from symx.runner import Case
from . import common as cm, e2e

ASSUMPTIONS = ['in the cases with a scripted tolerance the comparison that '
               'ends the dewpoint iteration gives any sequence of answers']
BOUNDS = {'elevation': '-400..5000 m', 't_min': '-30..25 C in windows', 'daily range': '0.5..25 K',
          'smoothed range': '0.5..25 K', 'precipitation': '0..200 mm',
          'antecedent precipitation': '0..4000 mm/year',
          'day length': '0..86400 s', 'potential radiation': '0..1200 W m-2',
          'transmittance': '0..0.8', 'rounds of the iteration': '0..3',
          'days': '1..2'}
OUTSIDE = ['whether the iteration ends']

CP, EPS, T_STD, P_STD, G, R, MA = (1010.0, 0.62196351, 288.15, 101325.0,
                                   9.80665, 8.3143, 28.9644e-3)


class Tol:
    """A tolerance whose comparison with the residual is scripted."""

    def __init__(self, rounds):
        self.left = rounds

    def _go(self):
        self.left -= 1
        return self.left >= 0

    def __lt__(self, x):          # residual > tol: go on
        return self._go()
    __le__ = __lt__

    def __gt__(self, x):          # residual < tol: stop
        return not self._go()
    __ge__ = __gt__
    __array_ufunc__ = None


class NoRounds(float):
    """A tolerance no residual exceeds."""

    def __new__(cls):
        return float.__new__(cls, 1e12)
    symx_scripted = property(lambda self: Tol(0))


def o_tfmax(ctx, dtr, sm, prec, thresh, scalar):
    b = 0.031 + 0.201 * ctx.exp(-0.185 * sm)
    f = 1.0 - 0.9 * ctx.exp(-b * ctx.pow(dtr, 1.5))
    return ctx.ite(prec > thresh, f * scalar, f)


def o_pet(ctx, sw, tday, dayl, elev, lr):
    pa = P_STD * ctx.pow(1.0 - lr * elev / T_STD, G / (lr * (R / MA)))
    rnet = sw * 0.72
    lh = 2.5023e6 - 2430.54 * tday
    gamma = CP * pa / (lh * EPS)
    s = (ctx.svp(tday + 0.2) - ctx.svp(tday - 0.2)) / 0.4
    return 1.26 * (s / (s + gamma)) * rnet * dayl / lh


def o_tdew(ctx, pet, tmin, sp, dtr):
    r = pet / ctx.max(sp, 80.0)
    return (tmin + 273.15) * (-0.127 + 1.121 * (
        1.003 - 1.444 * r + 12.312 * r * r - 32.766 * r * r * r) +
        0.0006 * dtr) - 273.15


def o_sw(ctx, pot, tt, vp, tf):
    return pot * ctx.max(tt - 6.1e-5 * vp, 0.0001) * tf


def inputs(ctx, n, t0, t1, free, dl=(38000, 50000), sp=(0, 4000),
           pot=(50, 900), coef=0.45, tt=(0.3, 0.8)):
    """Free variables: 'a' the daylight temperature, 'r' the daily range, 's'
    the smoothed one, 'p' precipitation, 'q' antecedent precipitation, 'd' day
    length, 'o' potential radiation, 't' clear-sky transmittance."""
    d = {}

    def var(k, i, lo, hi, fix):
        return ctx.real('%s%d' % (k, i), lo, hi) if k in free else fix
    day = [var('a', i, t0, t1, (t0 + t1) / 2) for i in range(n)]
    d['dtr'] = [var('r', i, 0.5, 25, 8.0 + i) for i in range(n)]
    d['t_min'] = [a - r / 2 - r / 2 * coef for a, r in zip(day, d['dtr'])]
    d['t_max'] = [a + r for a, r in zip(d['t_min'], d['dtr'])]
    d['smoothed_dtr'] = [var('s', i, 0.5, 25, 9.0) for i in range(n)]
    d['prec'] = [var('p', i, 0, 200, 0.0) for i in range(n)]
    d['seasonal_prec'] = [var('q', i, sp[0], sp[1], 900.0) for i in range(n)]
    d['daylength'] = [var('d', i, dl[0], dl[1], (dl[0] + dl[1]) / 2) for i in range(n)]
    d['potrad'] = [var('o', i, pot[0], pot[1], min(500.0, pot[1]))
                   for i in range(n)]
    d['tt_max'] = [var('t', i, tt[0], tt[1], min(0.6, tt[1]))
                   for i in range(n)]
    return d


def frame(ctx, d, n):
    import pandas as pd
    df = pd.DataFrame(index=pd.date_range('2001-05-10', periods=n))
    for k, v in d.items():
        df[k] = cm.col(ctx, v)
    return df


def method(name):
    from metsim.metsim import MetSim
    return MetSim.methods[name].run


def go(ctx, n=1, t0=2.0, t1=4.0, free='arspqdot', rounds=0, elev=500.0,
       cloud='cloud_deardorff', coefs=False, deep=True, win=None, **kw):
    P = dict(elev=elev, lw_cloud=cloud, sw_prec_thresh=0.0, rain_scalar=0.75,
             tday_coef=0.45, lapse_rate=0.0065)
    P.update(kw)
    if elev is None:
        P['elev'] = ctx.real('elev', -400, 5000)
    if coefs:
        P['sw_prec_thresh'] = ctx.real('thresh', 0, 20)
        P['rain_scalar'] = ctx.real('scalar', 0.2, 1)
        P['tday_coef'] = ctx.real('coef', 0, 1)
    d = inputs(ctx, n, t0, t1, free, coef=P['tday_coef'], **(win or {}))
    P['tdew_tol'] = Tol(rounds)
    df = frame(ctx, d, n)
    out = method('mtclim')(df, cm.params(**P))
    O = {k: cm.col_of(out, k) for k in
         ('t_day', 'tfmax', 'tskc', 'tdew', 'vapor_pressure', 'shortwave',
          'pet')}
    for k, v in O.items():
        ctx.observe(k, v)
    for k in ('prec', 't_min', 't_max', 'dtr'):
        ctx.prove_close(cm.col_of(out, k), d[k], 'inputs are left alone')
    for i in range(n):
        judge(ctx, {k: v[i] for k, v in d.items()},
              {k: v[i] for k, v in O.items()}, P, rounds if deep else None)


def judge(ctx, x, o, P, rounds):
    for k, v in o.items():
        ctx.prove(ctx.isnum(v), k + ' is a number')
        if not ctx.isnum(v):
            return
    mean = (x['t_min'] + x['t_max']) / 2
    tday = (x['t_max'] - mean) * P['tday_coef'] + mean
    ctx.prove(ctx.close(o['t_day'], tday), 'daylight temperature')
    tf = o_tfmax(ctx, x['dtr'], x['smoothed_dtr'], x['prec'],
                 P['sw_prec_thresh'], P['rain_scalar'])
    ctx.prove(ctx.close(o['tfmax'], tf), 'cloudy-sky transmittance')
    ctx.prove(ctx.band(o['tfmax'] > 0, o['tfmax'] <= 1),
              'transmittance lies in 0..1')
    c = 1 - o['tfmax'] if P['lw_cloud'].upper() == 'CLOUD_DEARDORFF' else \
        ctx.min(ctx.sqrt((1 - o['tfmax']) / 0.65), 1.0)
    ctx.prove(ctx.close(o['tskc'], c), 'cloud fraction from transmittance')
    ctx.prove(ctx.band(ctx.le(0.0, o['tskc']), ctx.le(o['tskc'], 1.0)),
              'cloud fraction lies in 0..1')
    ctx.prove(ctx.close(o['vapor_pressure'], ctx.svp(o['tdew'])),
              'vapor pressure is saturation at the dewpoint')
    sw = o_sw(ctx, x['potrad'], x['tt_max'], o['vapor_pressure'], o['tfmax'])
    ctx.prove(ctx.close(o['shortwave'], sw), 'shortwave from transmittance')
    ctx.prove(ctx.le(0.0, o['shortwave']), 'shortwave is not negative')
    ctx.prove(ctx.implies(x['potrad'] > 0, o['shortwave'] > 0),
              'shortwave is positive where the sun rises')
    pet = o_pet(ctx, o['shortwave'], o['t_day'], x['daylength'], P['elev'],
                P['lapse_rate'])
    ctx.prove(ctx.close(o['pet'], pet), 'potential evaporation')
    if rounds is None:
        return
    # the dewpoint of each round follows from the one before
    td = x['t_min']
    for _ in range(rounds + 1):
        s = o_sw(ctx, x['potrad'], x['tt_max'], ctx.svp(td), o['tfmax'])
        e = o_pet(ctx, s, o['t_day'], x['daylength'], P['elev'],
                  P['lapse_rate'])
        td = o_tdew(ctx, e, x['t_min'], x['seasonal_prec'], x['dtr'])
    ctx.prove(ctx.close(o['tdew'], td), 'dewpoint')


def wet(ctx, n=2):
    """Two days that differ in precipitation only."""
    d = inputs(ctx, 1, 5.0, 7.0, 'ars')
    d = {k: v * 2 for k, v in d.items()}
    th, sc = ctx.real('thresh', 0, 10), ctx.real('scalar', 0.1, 1)
    w = ctx.real('wet', 0, 100)
    ctx.assume(w > th)
    dry = ctx.real('dry', 0, 10)
    ctx.assume(dry <= th)
    d['prec'] = [dry, w]
    out = method('mtclim')(frame(ctx, d, 2), cm.params(
        tdew_tol=Tol(0), sw_prec_thresh=th, rain_scalar=sc))
    f = cm.col_of(out, 'tfmax')
    ctx.prove(ctx.close(f[1], f[0] * sc),
              'wet days get the configured share of the transmittance')


def absent(ctx, n=1, missing=('t_day', 'tfmax', 'tskc', 'pet', 'tdew',
                              'vapor_pressure'), t0=4.0, t1=6.0, **kw):
    """Variables estimated by the passthrough method."""
    d = inputs(ctx, n, t0, t1, 'arspq')
    d['shortwave'] = [ctx.real('S%d' % i, 0, 600) for i in range(n)]
    given = dict(t_day=(-40, 40), tfmax=(0, 1), tskc=(0, 1), pet=(-1, 20),
                 tdew=(-50, 35), vapor_pressure=(0, 6000))
    G = {k: [ctx.real('%s%d' % (k, i), *given[k]) for i in range(n)]
         for k in given if k not in missing}
    P = dict(elev=500.0, lw_cloud='cloud_deardorff', sw_prec_thresh=0.0,
             rain_scalar=0.75, tday_coef=0.45, lapse_rate=0.0065)
    P.update(kw)
    full = dict(d)
    full.update(G)
    out = method('passthrough')(frame(ctx, full, n), cm.params(**P))
    O = {k: cm.col_of(out, k) for k in given}
    ctx.prove_close(cm.col_of(out, 'shortwave'), d['shortwave'],
                    'shortwave is taken as it is')
    for k, v in O.items():
        ctx.observe(k, v)
    for i in range(n):
        x = {k: v[i] for k, v in d.items()}
        o = {k: v[i] for k, v in O.items()}
        mean = (x['t_min'] + x['t_max']) / 2
        want = dict(
            t_day=(x['t_max'] - mean) * P['tday_coef'] + mean,
            tfmax=o_tfmax(ctx, x['dtr'], x['smoothed_dtr'], x['prec'],
                          P['sw_prec_thresh'], P['rain_scalar']),
            tskc=1 - o['tfmax']
            if P['lw_cloud'].upper() == 'CLOUD_DEARDORFF' else
            ctx.min(ctx.sqrt((1 - o['tfmax']) / 0.65), 1.0),
            pet=o_pet(ctx, x['shortwave'], o['t_day'], x['daylength'],
                      P['elev'], P['lapse_rate']),
            tdew=o_tdew(ctx, o['pet'], x['t_min'], x['seasonal_prec'],
                        x['dtr']),
            vapor_pressure=ctx.svp(o['tdew']))
        for k, w in want.items():
            if k in G:
                ctx.prove(ctx.close(o[k], G[k][i]), k + ' is taken as it is')
            else:
                ctx.prove(ctx.close(o[k], w), k + ' is estimated')


def run(ctx, tol=1e-6, **kw):
    """Whole daily runs with the real iteration."""
    n = 2
    P = [ctx.real('p%d' % i, 0, 100) for i in range(n)]
    w = e2e.World(ctx, days=n, start='2001-06-15',
                  forcing=dict(t_min=lambda t, i, j: 3.0 + t,
                               t_max=lambda t, i, j: 15.0 + 2 * t,
                               prec=lambda t, i, j: P[t]))
    ov = {k: {'out_name': k} for k in ('t_day', 'tskc', 'shortwave',
                                      'vapor_pressure', 'prec', 'daylength')}
    (o,) = w.run(time_step=1440, method='mtclim', out_vars=ov,
                 tdew_tol=NoRounds(), **kw).values()
    V = {k: list(v['data'][:, 0, 0]) for k, v in o['vars'].items()
         if k in ov}
    for t in range(n):
        mean = (18.0 + 3 * t) / 2
        ctx.prove(ctx.close(V['t_day'][t],
                            (15.0 + 2 * t - mean) *
                            float(kw.get('tday_coef', 0.45)) + mean),
                  'daylight temperature of the run')
        # 29 days of state with a range of 10
        sm = (290.0 - (10 if t else 0) + 12 + (13 if t else 0)) / 30
        tf = o_tfmax(ctx, 12.0 + t, sm, P[t],
                     float(kw.get('sw_prec_thresh', 0.0)),
                     float(kw.get('rain_scalar', 0.75)))
        ctx.prove(ctx.close(V['tskc'][t], 1 - tf), 'cloud of the run')
        ctx.prove(V['vapor_pressure'][t] > 0, 'vapor pressure is positive')
        ctx.prove(V['shortwave'][t] > 0, 'shortwave is positive')


def cases(tier):
    c = [Case('all', go), Case('all-cold', go, t0=-12.0, t1=-10.0),
         Case('freezing', go, t0=-1.0, t1=1.0),
         Case('hot', go, t0=20.0, t1=22.0),
         Case('two-days', go, n=2, free='arp'),
         Case('coefs', go, coefs=True, free='arsp'),
         Case('default-cloud', go, cloud='default', free='arsp', deep=False),
         Case('capital-cloud', go, cloud='Cloud_Deardorff', free='arsp',
              deep=False),
         Case('capital-default', go, cloud='DEFAULT', free='arsp',
              deep=False),
         Case('pass-capital', absent, missing=('tfmax', 'tskc'),
              lw_cloud='CLOUD_DEARDORFF'),
         Case('tol-tight', go, rounds=1, free='arp'),
         Case('tol-two', go, rounds=2, free='ar', t0=5.0, t1=6.0),
         Case('tol-two-days', go, n=2, rounds=1, free='ap', t0=5.0, t1=6.0),
         Case('high', go, elev=3500.0, free='aro'),
         Case('any-height', go, elev=None, free='ao'),
         Case('low-sun', go, t0=-6.0, t1=-4.0, free='aotd',
              win=dict(tt=(0.0, 0.1), pot=(1, 60), dl=(600, 15000))),
         Case('no-sun', go, t0=-31.0, t1=-30.0, free='arpd',
              win=dict(tt=(0.0, 0.0), pot=(0, 0), dl=(0, 600))),
         Case('dry', go, free='aqo', t0=10.0, t1=12.0),
         Case('wet', wet),
         Case('pass-all', absent),
         Case('pass-tday', absent, missing=('t_day', 'pet', 'tdew',
                                           'vapor_pressure')),
         Case('pass-tdew', absent, missing=('tfmax', 'tskc', 'tdew',
                                           'vapor_pressure'),
              lw_cloud='default'),
         Case('pass-vp', absent, missing=('vapor_pressure',)),
         Case('pass-pet', absent, missing=('pet', 'tskc'), n=2),
         Case('run', run), Case('run-coefs', run, tday_coef='0.3',
                                rain_scalar='0.5', sw_prec_thresh='2')]
    if tier == 'thorough':
        for i in range(11):
            t = -30 + 5 * i
            c.append(Case('w%d' % i, go, t0=float(t), t1=t + 5.0,
                          budget=300))
            c.append(Case('w%d-r' % i, go, t0=float(t), t1=t + 2.0, rounds=1,
                          free='arp', budget=300))
        c.append(Case('three', go, rounds=3, free='a', t0=5.0, t1=5.5,
                      budget=600))
    return c
