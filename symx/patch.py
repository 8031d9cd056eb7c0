"""Loads metsim from the repository under test and, for a symbolic run, rebinds
the third-party names in its module globals to the symbolic stand-ins."""
import ast
import builtins
import importlib
import inspect
import math
import os
import pkgutil
import sys
import textwrap
import types

import numpy as np

REPO = os.environ.get('METSIM_REPO', '/repo')


def load():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    import metsim
    if not os.path.abspath(metsim.__file__).startswith(
            os.path.abspath(REPO) + os.sep):
        raise RuntimeError('metsim imported from ' + metsim.__file__)
    for m in pkgutil.walk_packages(metsim.__path__, 'metsim.'):
        if not m.name.startswith('metsim.tests'):
            importlib.import_module(m.name)
    return metsim


def modules():
    return [m for n, m in sorted(sys.modules.items())
            if (n == 'metsim' or n.startswith('metsim.')) and
            isinstance(m, types.ModuleType) and
            not n.startswith('metsim.tests') and '_version' not in n]


# ------------------------------------------------------- state snapshots
class Snapshot:
    """Remembers the contents of every mutable container reachable from the
    metsim modules so that one path does not see what another left behind."""

    def __init__(self):
        self.saved = []
        seen = set()
        for m in modules():
            self._scan(m.__dict__, seen, top=True)
            for v in list(m.__dict__.values()):
                if isinstance(v, type) and getattr(
                        v, '__module__', '').startswith('metsim'):
                    if id(v) in seen:
                        continue
                    seen.add(id(v))
                    attrs = {k: x for k, x in v.__dict__.items()
                             if not k.startswith('__')}
                    self.saved.append(('class', v, attrs))
                    for x in attrs.values():
                        self._scan(x, seen)
                elif callable(v) and str(getattr(
                        v, '__module__', '')).startswith('metsim'):
                    self._function(v, seen)
        for kind, o, _ in list(self.saved):
            if kind == 'class':
                for v in list(o.__dict__.values()):
                    v = getattr(v, '__func__', getattr(v, 'fget', v))
                    if callable(v):
                        self._function(v, seen)

    def _function(self, f, seen):
        """State a function may keep between its calls."""
        for _ in range(4):
            if f is None or id(f) in seen:
                return
            seen.add(id(f))
            if callable(getattr(f, 'cache_clear', None)):
                self.saved.append(('cache', f, {}))
            if isinstance(f, types.FunctionType):
                for v in list(f.__defaults__ or ()) + list(
                        (f.__kwdefaults__ or {}).values()):
                    self._scan(v, seen)
                for c in f.__closure__ or ():
                    try:
                        self._scan(c.cell_contents, seen)
                        self.saved.append(('cell', c, c.cell_contents))
                    except ValueError:
                        pass
                self._scan(f.__dict__, seen)
            f = getattr(f, '__wrapped__', None)

    def _scan(self, o, seen, top=False):
        if id(o) in seen:
            return
        if isinstance(o, dict):
            seen.add(id(o))
            self.saved.append(('module' if top else 'dict', o, dict(o)))
            for k, v in list(o.items()):
                if top and k.startswith('__'):
                    continue
                self._scan(v, seen)
        elif type(o) is list:
            seen.add(id(o))
            self.saved.append(('list', o, list(o)))
            for v in o:
                self._scan(v, seen)
        elif type(o) is set:
            seen.add(id(o))
            self.saved.append(('set', o, set(o)))
        elif type(o) is tuple:
            for v in o:
                self._scan(v, seen)
        elif str(getattr(type(o), '__module__', '')).startswith('metsim') \
                and isinstance(getattr(o, '__dict__', None), dict):
            self._scan(o.__dict__, seen)

    def restore(self):
        for kind, o, c in self.saved:
            if kind == 'dict':
                if o != c if _safe(c) else True:
                    o.clear()
                    o.update(c)
                elif list(o) != list(c):
                    o.clear()
                    o.update(c)
            elif kind == 'module':
                for k in [k for k in o if k not in c]:
                    del o[k]
                o.update(c)
            elif kind == 'list':
                o[:] = c
            elif kind == 'set':
                o.clear()
                o.update(c)
            elif kind == 'cache':
                o.cache_clear()
            elif kind == 'cell':
                if o.cell_contents is not c:
                    o.cell_contents = c
            else:
                for k in [k for k in o.__dict__ if k not in c and
                          not k.startswith('__')]:
                    delattr(o, k)
                for k, v in c.items():
                    if o.__dict__.get(k) is not v:
                        setattr(o, k, v)


def _safe(c):
    return False


# ------------------------------------------------------- symbolic patching
class SymList(list):
    """A list display of numbers that a symbolic position may index."""

    def __getitem__(self, i):
        from . import nparr, sym
        i = nparr._one(i)
        if not isinstance(i, sym.Sym) or not self or not all(
                isinstance(v, (int, float)) for v in self):
            return list.__getitem__(self, i)
        E = sym.ENGINE
        lo, hi = E.bounds.sym(i)
        n = len(self)
        lo, hi = math.ceil(max(lo, -n) - 1e-9), math.floor(min(hi, n - 1)
                                                           + 1e-9)
        out = E.bounds.truth(sym.band(i <= n - 1, i >= -n))
        if out is not True and not E.branch(sym.band(i <= n - 1, i >= -n)):
            raise IndexError('list index out of range')
        if lo < 0:
            return list.__getitem__(self, i.__index__())
        r = list.__getitem__(self, hi)
        for k in range(hi - 1, lo - 1, -1):
            r = sym.ite(i <= k, list.__getitem__(self, k), r)
        return r


def rewrite(fn):
    """The function with its list displays of numbers made SymLists."""
    try:
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
        d = tree.body[0]
        if not isinstance(d, ast.FunctionDef) or fn.__closure__:
            return fn
        d.decorator_list = []
        hit = []

        class T(ast.NodeTransformer):
            def visit_List(self, n):
                self.generic_visit(n)
                if isinstance(n.ctx, ast.Load) and len(n.elts) > 1 and all(
                        isinstance(e, ast.Constant) for e in n.elts):
                    hit.append(n)
                    return ast.copy_location(ast.Call(
                        ast.Name('__symlist__', ast.Load()), [n], []), n)
                return n
        tree = ast.fix_missing_locations(T().visit(tree))
        if not hit:
            return fn
        ast.increment_lineno(tree, fn.__code__.co_firstlineno - 1)
        code = compile(tree, fn.__code__.co_filename, 'exec')
        body = next(c for c in code.co_consts
                    if isinstance(c, types.CodeType) and
                    c.co_name == fn.__name__)
        fn.__globals__['__symlist__'] = SymList
        g = types.FunctionType(body, fn.__globals__, fn.__name__,
                               fn.__defaults__)
        g.__kwdefaults__ = fn.__kwdefaults__
        return g
    except (OSError, SyntaxError, StopIteration, TypeError):
        return fn


class _Jit:
    """A numba dispatcher: compiled when the arguments are concrete, its Python
    source executed otherwise."""

    def __init__(self, disp):
        self.disp = disp
        self.py_func = rewrite(disp.py_func)
        self.memo = {}

    def __call__(self, *args, **kw):
        from . import nparr, sym
        flat = []
        for a in list(args) + list(kw.values()):
            if isinstance(a, np.ndarray) and a.dtype == object and \
                    not nparr.contains(a):
                a = nparr.concrete(a)
            flat.append(a)
        if any(nparr.contains(a) for a in flat):
            return self.py_func(*args, **kw)
        pos = flat[:len(args)]
        pos = [float(p.const) if isinstance(p, sym.Sym) else
               nparr.plain(p) for p in pos]
        kws = dict(zip(kw, flat[len(args):]))
        try:
            key = tuple(pos) + tuple(sorted(kws.items()))
            hash(key)
        except TypeError:
            key = None
        r = self.memo.get(key) if key is not None else None
        if r is None:
            with _Originals():
                r = self.disp(*pos, **kws)
            if key is not None and len(self.memo) < 64:
                self.memo[key] = r
        return copy_result(r)

    def __getattr__(self, k):
        return getattr(self.disp, k)


ORIG = []        # (module dict, name, original or MISSING, replacement)
MISSING = object()


class _Originals:
    """The real module globals, while numba compiles and runs a function."""

    def __enter__(self):
        # what is there now may be the replacement or a spy of a check
        self.now = [(d, k, d.get(k, MISSING)) for d, k, _, _ in ORIG]
        for d, k, o, _ in ORIG:
            if o is MISSING:
                d.pop(k, None)
            else:
                d[k] = o

    def __exit__(self, *a):
        for d, k, n in self.now:
            if n is MISSING:
                d.pop(k, None)
            else:
                d[k] = n


def copy_result(r):
    from . import nparr
    if isinstance(r, tuple):
        return tuple(copy_result(x) for x in r)
    if isinstance(r, np.ndarray):
        if r.ndim == 1:
            return nparr.wrap(r.astype(object))
        return nparr.wrap(r.copy())
    return r


def patch_pandas():
    """Hand metsim arrays whose elementwise operations understand symbols."""
    import pandas as pd
    import xarray as xr
    from . import frames, nparr
    old = pd.Series.values
    if getattr(pd.Series, '_symx', False):
        return

    def values(self):
        v = old.fget(self)
        if isinstance(v, np.ndarray) and v.dtype == object:
            return v.view(nparr.SA)
        return v
    pd.Series.values = property(values)
    pd.Series._symx = True
    oldx = xr.DataArray.values

    def xvalues(self):
        v = oldx.fget(self)
        if isinstance(v, np.ndarray) and v.dtype == object:
            return v.view(nparr.SA)
        return v
    xr.DataArray.values = property(xvalues, oldx.fset)
    xr.set_options(use_bottleneck=False, use_numbagg=False,
                   use_opt_einsum=False)
    def mk(orig):
        def astype(self, dtype, *a, **k):
            if isinstance(dtype, dict):
                dtype = {c: nparr.fixdtype(d) for c, d in dtype.items()}
            elif frames.anysym(self) and frames.isfloat(dtype):
                return self.copy()
            return orig(self, nparr.fixdtype(dtype), *a, **k)
        return astype
    pd.DataFrame.astype = mk(pd.DataFrame.astype)
    pd.Series.astype = mk(pd.Series.astype)
    frames.install()
    # floats stored in a float column by a symbol: pandas would try float()
    try:
        import bottleneck
        import pandas.core.nanops as nanops
        nanops._USE_BOTTLENECK = False
        pd.set_option('compute.use_bottleneck', False)
        pd.set_option('compute.use_numexpr', False)
    except Exception:
        pass


def apply():
    """Rebind names in every metsim module (symbolic mode)."""
    import pandas as pd
    import scipy
    import scipy.interpolate as si
    import struct
    import netCDF4
    import cftime
    import xarray as xr
    from numba.core.registry import CPUDispatcher
    from . import nparr, stubs
    patch_pandas()
    xrp = stubs.ModProxy(xr, {
        'open_dataset': stubs.open_dataset(xr.open_dataset),
        'open_mfdataset': stubs.open_mfdataset(xr.open_mfdataset)})
    pdp = stubs.ModProxy(pd, {'read_csv': stubs.read_csv(pd.read_csv),
                              'read_table': stubs.read_csv(pd.read_table)})
    ncp = stubs.ModProxy(netCDF4, {'Dataset': stubs.FakeNC})
    import glob
    osp, pathp, globp = stubs.make_os()
    ident = {id(os): osp, id(os.path): pathp, id(glob): globp,
             id(os.makedirs): osp.makedirs, id(os.listdir): osp.listdir,
             id(os.walk): osp.walk, id(glob.glob): globp.glob,
             id(np): nparr.NP, id(math): nparr.MATH, id(scipy): stubs.SCIPY,
             id(si): stubs.INTERPOLATE, id(struct): stubs.STRUCT,
             id(xr): xrp, id(pd): pdp, id(netCDF4): ncp,
             id(netCDF4.Dataset): stubs.FakeNC,
             id(xr.open_dataset): xrp._over['open_dataset'],
             id(xr.open_mfdataset): xrp._over['open_mfdataset'],
             id(pd.read_csv): pdp._over['read_csv'],
             id(struct.unpack): stubs.STRUCT.unpack,
             id(struct.iter_unpack): stubs.STRUCT.iter_unpack}
    for n in ('PchipInterpolator', 'interp1d', 'Akima1DInterpolator',
              'CubicSpline', 'pchip_interpolate', 'make_interp_spline',
              'BarycentricInterpolator', 'KroghInterpolator'):
        ident[id(getattr(si, n))] = getattr(stubs.INTERPOLATE, n)
    for n in dir(np):
        v = getattr(np, n)
        if callable(v) and not isinstance(v, type):
            p = getattr(nparr.NP, n)
            if p is not v:
                ident[id(v)] = p
    for n in dir(math):
        v = getattr(math, n)
        if callable(v):
            ident[id(v)] = getattr(nparr.MATH, n)
    jits = {}
    for m in modules():
        d = m.__dict__
        for k, v in list(d.items()):
            if k.startswith('__'):
                continue
            if isinstance(v, CPUDispatcher):
                d[k] = jits.setdefault(id(v), _Jit(v))
                ORIG.append((d, k, v, d[k]))
            elif id(v) in ident and v is not ident[id(v)]:
                d[k] = ident[id(v)]
                ORIG.append((d, k, v, d[k]))
        for k, f in list(nparr.BUILTINS.items()) + [('open', stubs.sym_open)]:
            if k not in d:
                d[k] = f
                ORIG.append((d, k, MISSING, f))
    return jits
