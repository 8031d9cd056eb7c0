"""Shared builders of inputs for the code under test."""
import numpy as np
import pandas as pd


def params(**kw):
    p = dict(method='mtclim', time_step=60, calendar='standard',
             prec_type='uniform', utc_offset=False, lon=0.0, lat=40.0,
             elev=500.0, theta_s=0.0, lapse_rate=0.0065,
             tmax_daylength_fraction=0.67, lw_type='prata',
             lw_cloud='cloud_deardorff', period_ending=False,
             sw_prec_thresh=0.0, rain_scalar=0.75, tday_coef=0.45,
             tdew_tol=1e-6)
    p.update(kw)
    return p


def geom(rise=360, sset=1080, dt=30.0, days=366, rises=None):
    """A concrete solar geometry with constant daylight intensity.
    rise/sset in minutes; `rises` maps 0-based day -> (rise, set)."""
    n = int(86400 / dt)
    tiny = np.zeros((days, n))
    dl = np.zeros(days)
    for d in range(days):
        r, s = (rises or {}).get(d, (rise, sset))
        a, b = int(r * 60 / dt), int(s * 60 / dt)
        tiny[d, a:b] = 1.0 / max(b - a, 1)
        dl[d] = (s - r) * 60.0
    return dict(tiny_rad_fract=tiny, daylength=dl,
                potrad=np.full(days, 400.0), tt_max0=np.full(days, 0.6))


COLS = dict(t_min=2.0, t_max=12.0, prec=0.0, shortwave=200.0,
            vapor_pressure=600.0, tskc=0.4, wind=2.0)


def daily(ctx, n, start='2001-03-01', sg=None, **cols):
    """Daily frame; values may be scalars or lists, symbolic or not."""
    idx = pd.date_range(start, periods=n)
    df = pd.DataFrame(index=idx)
    doy = idx.dayofyear - 1
    if sg is not None:
        df['daylength'] = np.asarray(sg['daylength'])[doy]
    data = dict(COLS)
    data.update(cols)
    for k, v in data.items():
        if v is None:
            continue
        if not isinstance(v, (list, tuple, np.ndarray)):
            v = [v] * n
        df[k] = col(ctx, v)
    return df


def col(ctx, v):
    if ctx.sym and any(not isinstance(x, (int, float)) for x in v):
        return np.asarray(ctx.arr(list(v)), dtype=object)
    return np.array([float(x) for x in v])


def col_of(df, name):
    return list(np.asarray(df[name].to_numpy()))
