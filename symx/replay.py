"""Concrete runs of the harnesses on the unmodified code (own process)."""
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
from fractions import Fraction


SNAP = None


def run_one(case, env, tier):
    from .harness import RealCtx, Skip
    from .engine import Hung
    from .runner import STUCK, unwatch, watch, where
    env = {k: (v if isinstance(v, bool) else
               Fraction(v) if isinstance(v, str) else v)
           for k, v in env.items()}
    tmp = tempfile.mkdtemp(prefix='symx-')
    os.chdir(tmp)
    ctx = RealCtx(env, tier, tmp)
    ctx.snap = SNAP
    out = dict(failed={}, skipped=False, obs={}, error=None, detail=None)
    watch(lambda: 0, .5 if STUCK[0] else 2)
    try:
        case.fn(ctx, **case.kw)
    except Skip:
        out['skipped'] = True
    except Hung as ex:
        unwatch()
        STUCK[0] = 1
        lab = 'does not return: ' + where(ex)
        ctx.failed[lab] = 1
        out['detail'] = lab
    except KeyError as ex:
        if ex.args and ex.args[0] in [k for k in [ex.args[0]]
                                      if isinstance(k, str) and
                                      'harness.py' in
                                      traceback.format_exc().splitlines()[-3]
                                      ]:
            out['error'] = 'input %s missing' % ex
        else:
            ctx.failed['unexpected exception KeyError in ' + where(ex)] = 1
            out['detail'] = traceback.format_exc()[-1200:]
    except Exception as ex:
        ctx.failed['unexpected exception %s in %s' % (type(ex).__name__,
                                                      where(ex))] = 1
        out['detail'] = traceback.format_exc()[-1200:]
    finally:
        unwatch()
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    if not out['skipped']:
        out['failed'] = ctx.failed
        out['obs'] = {k: plain(v) for k, v in ctx.obs.items()}
        out['passed'] = ctx.passed
    return out


def plain(v):
    import numpy as np
    if isinstance(v, (list, tuple, np.ndarray)):
        return [plain(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def main(argv):
    pid, tier = argv
    from . import patch
    from .runner import JOBS, load_check, pool
    patch.load()
    mod = load_check(pid)
    if getattr(mod, 'WARM', True):
        import metsim.physics
        try:
            metsim.physics.solar_geom(100.0, 40.0, 0.0065)
        except Exception:
            pass
    global SNAP
    SNAP = patch.Snapshot()
    cases = {c.name: c for c in mod.cases(tier)}
    jobs = json.load(sys.stdin)
    out = os.dup(1)
    os.dup2(2, 1)          # the code under test may print
    res = pool([lambda j=j: run_one(cases[j['case']], j['env'], tier)
                for j in jobs], JOBS,
               time.time() + (220 if tier == 'quick' else 1500))
    res = [dict(error=(r or {'crash': 'no time left'})['crash'], failed={},
                skipped=False, obs={}) if r is None or 'crash' in r else r
           for r in res]
    os.write(out, ('RESULT ' + json.dumps(res) + '\n').encode())


if __name__ == '__main__':
    main(sys.argv[1:])
