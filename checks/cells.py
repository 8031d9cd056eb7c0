"""Forcings stored in one file per cell, in memory or on disk."""
import os

import numpy as np


def text(ctx, path, rows, sep='\t'):
    if ctx.sym:
        from symx import stubs
        stubs.FS.files[path] = [list(r) for r in rows]
    else:
        with open(path, 'w') as f:
            for r in rows:
                f.write(sep.join(repr(float(x)) for x in r) + '\n')
    return path


def binary(ctx, path, cells):
    """cells: values of the bytes, 0..255."""
    if ctx.sym:
        from symx import stubs
        stubs.FS.files[path] = list(cells)
    else:
        with open(path, 'wb') as f:
            f.write(bytes(int(c) for c in cells))
    return path


def words(ctx, vals):
    """Little-endian two-byte words of whole numbers -32768..65535."""
    out = []
    for v in vals:
        if ctx.isnum(v) and not hasattr(v, 't'):
            u = int(v) % 65536
            out += [u % 256, u // 256]
        else:
            raise TypeError('give the bytes of a symbolic word')
    return out


def word(ctx, name):
    """A two-byte word of any content: its bytes."""
    return [ctx.int(name + '_lo', 0, 255), ctx.int(name + '_hi', 0, 255)]


def value(ctx, w, scale, signed):
    u = w[0] + 256 * w[1]
    if signed:
        u = ctx.ite(w[1] >= 128, u - 65536, u)
    return u / scale


def place(ctx, w, sub='cells'):
    """A directory for the files of world w."""
    d = os.path.join(w.dir, sub)
    if ctx.sym:
        from symx import stubs
        stubs.FS.dirs.add(d)
    else:
        os.makedirs(d, exist_ok=True)
    return d


def domain(ctx, lats, lons, mask=None, elev=500.0, names=('lat', 'lon')):
    import xarray as xr
    m = np.ones((len(lats), len(lons))) if mask is None else \
        np.asarray(mask, dtype=float)
    return xr.Dataset(
        {'mask': (names, m), 'elev': (names, np.full(m.shape, elev))},
        coords={'lat': np.array(lats, dtype=float),
                'lon': np.array(lons, dtype=float)})
