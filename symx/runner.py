"""Runs one check: symbolic exploration of its cases in parallel, replay of
every counterexample and witness on the unmodified code, evidence."""
import importlib
import json
import os
import pickle
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
JOBS = int(os.environ.get('SYMX_JOBS', '8'))


class Case:
    def __init__(self, name, fn, budget=60, timeout_ms=8000, max_paths=100000,
                 witnesses=3, branch_ms=1500, **kw):
        self.name, self.fn, self.kw = name, fn, kw
        self.budget, self.timeout_ms = budget, timeout_ms
        self.max_paths, self.witnesses = max_paths, witnesses
        self.branch_ms = branch_ms


def load_check(pid):
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    return importlib.import_module('checks.' + pid.lower())


# ---------------------------------------------------------------- symbolic
def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/metsim/' in f.filename]
    f = fr[-1] if fr else tb[-1]
    return '%s:%s' % (os.path.basename(f.filename), f.name)


HANG = float(os.environ.get('SYMX_HANG', '60'))     # seconds of CPU


def watch(sig, times=1):
    """Raise Hung where the code is after HANG seconds of CPU time in which
    sig() does not change (None: something else is at work)."""
    import signal
    from .engine import Hung
    seen = [sig(), 0]

    def tick(*a):
        now = sig()
        if now is None or now != seen[0]:
            seen[:] = [now, 0]
            return
        seen[1] += 1
        if seen[1] >= 4:
            seen[1] = 0
            raise Hung()
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, *[times * HANG / 4] * 2)


STUCK = __import__('mmap').mmap(-1, 1)      # shared: a case did not return


def unwatch():
    import signal
    signal.setitimer(signal.ITIMER_PROF, 0, 0)
    signal.signal(signal.SIGPROF, signal.SIG_IGN)


def run_case(case, tier, snap, hard):
    """In a forked child: explore one case, return plain data."""
    from . import engine as eng, stubs, sym
    from .harness import SymCtx
    t0 = time.time()
    deadline = min(t0 + case.budget, hard)
    e = eng.Engine(deadline, case.timeout_ms, case.max_paths, case.branch_ms)
    ctx = SymCtx(e, tier)
    ctx.snap = snap
    encoded = set()

    def body():
        snap.restore()
        stubs.FS.__init__()
        trace = e.paths == 0 and e.aborted == 0
        if trace:
            def prof(frame, ev, arg):
                if ev == 'call':
                    c = frame.f_code
                    if '/metsim/' in c.co_filename:
                        encoded.add('%s:%s' % (
                            c.co_filename.split('/metsim/')[-1], c.co_name))
            sys.setprofile(prof)
        watch(lambda: None if e.solver.busy else (
            e.solver.stats.queries, e.branches_interval, e.obligations),
            .2 if STUCK[0] else 1)
        try:
            case.fn(ctx, **case.kw)
        except eng.Hung as ex:
            unwatch()
            sys.setprofile(None)
            STUCK[0] = 1
            lab = 'does not return: ' + where(ex)
            e.last_exc = lab
            e.obligations += 1
            r, env = e.solver.check([], e.pc, full=True)
            if r != 'unsat':
                e._candidate(lab, env, [])
            e.deadline = time.time()        # once is enough
        except Exception as ex:
            if isinstance(ex, sym.Unsupported):
                raise
            sys.setprofile(None)
            lab = 'unexpected exception %s in %s' % (type(ex).__name__,
                                                     where(ex))
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            e.last_exc = '%s: %s' % (lab, str(ex)[:200])
            e.obligations += 1
            r, env = e.solver.check([], e.pc, full=True)
            if r != 'unsat':
                e._candidate(lab, env, [])
        finally:
            unwatch()
            sys.setprofile(None)
    try:
        e.explore(body, case.witnesses)
    except Exception as ex:
        e.errors.append('engine: %s %s' % (type(ex).__name__, ex))
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    # resolve the stub values of witnesses and candidates
    res = e.__dict__.get('resolvers', {})

    def resolve(env):
        env = dict(env)
        for n in e.vars:
            if n in res:
                try:
                    env[n] = sym.frac(res[n](env))
                except Exception:
                    pass
        return env

    wits = []
    for env, obs in e.witnesses:
        env2 = resolve(env)
        vals = None
        if obs is not None:
            vals = {}
            memo = {}
            for k, v in obs.items():
                vals[k] = numbers_of(v, env2, memo)
        wits.append((export(env, e), vals))
    cands = []
    dropped = {}
    for lab, env in e.candidates:
        if env is None:
            dropped[lab] = dropped.get(lab, 0) + 1
        else:
            cands.append((lab, export(env, e)))
    s = e.solver.stats
    return dict(
        name=case.name, seconds=time.time() - t0, paths=e.paths,
        aborted=e.aborted, branches=e.branches, forks=e.forks,
        interval=e.branches_interval, obligations=e.obligations,
        discharged=e.discharged, syntactic=e.syntactic,
        undecided=sorted(set(e.undecided)), n_undecided=len(e.undecided),
        queries=s.queries, unsat=s.unsat, sat=s.sat, unknown=s.unknown,
        refinements=s.refinements, icp=s.icp, boxes=s.boxes, by_interval=s.interval,
        solver_seconds=s.seconds, complete=e.complete,
        unexplored=e.unexplored, unsupported=sorted(set(e.unsupported))[:5],
        n_unsupported=len(e.unsupported), errors=e.errors[:5],
        concretised=dict(list(e.concretised.items())[:5]),
        n_concretised=sum(e.concretised.values()),
        last_exc=getattr(e, 'last_exc', None),
        witnesses=wits, candidates=cands, dropped=dropped,
        encoded=sorted(encoded), nvars=len(e.vars))


def numbers_of(v, env, memo):
    from . import sym
    import numpy as np
    if isinstance(v, (list, tuple, np.ndarray)):
        return [numbers_of(x, env, memo) for x in v]
    try:
        r = sym.evaluate(v, env, memo)
    except KeyError:
        return None
    if isinstance(r, bool):
        return r
    try:
        return float(r)
    except (TypeError, ValueError, OverflowError):
        return str(r)


def export(env, e):
    return {k: (v if isinstance(v, bool) else
                '%d/%d' % (Fraction(v).numerator, Fraction(v).denominator))
            for k, v in env.items() if not k.startswith('~')}


def pool(tasks, jobs, until):
    """Fork one child per task, at most `jobs` at a time.  tasks: callables;
    children that run past `until` are ended."""
    import signal
    results = [None] * len(tasks)
    running = {}
    order = list(range(len(tasks)))
    import select
    while order or running:
        while order and len(running) < jobs:
            i = order.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = tasks[i]()
                    data = pickle.dumps(out)
                except BaseException as ex:
                    data = pickle.dumps(dict(crash='%s: %s\n%s' % (
                        type(ex).__name__, ex, traceback.format_exc()[-1500:])
                    ))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = (i, pid, [])
        ready, _, _ = select.select(list(running), [], [], 1.0)
        if time.time() > until:
            order = []
            for i, pid, buf in running.values():
                os.kill(pid, signal.SIGKILL)
        for r in ready:
            b = os.read(r, 1 << 20)
            i, pid, buf = running[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                results[i] = pickle.loads(b''.join(buf))
            except Exception:
                results[i] = dict(crash='child ended without a result')
    return results


# ---------------------------------------------------------------- replay
class ReplayServer:
    """A fresh interpreter with the unmodified code."""

    def __init__(self, pid, tier):
        env = dict(os.environ)
        env.pop('SYMX_SYMBOLIC', None)
        self.p = subprocess.Popen(
            [sys.executable, '-m', 'symx.replay', pid, tier], cwd=ROOT,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE if not os.environ.get('SYMX_DEBUG')
            else None, env=env, text=True)

    def run(self, jobs):
        out, err = self.p.communicate(json.dumps(jobs))
        for line in out.splitlines():
            if line.startswith('RESULT '):
                return json.loads(line[7:])
        raise RuntimeError('replay failed: %s %s' % (out[-500:],
                                                     (err or '')[-2000:]))


def same(a, b, rtol=2e-5, atol=2e-6):
    if a is None:
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return str(a) == str(b)
    if a != a or b != b:
        return a != a and b != b
    if a in (float('inf'), float('-inf')):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # property=<id> | <exact label> | <what fails>
            f = [x.strip() for x in line.split('|')]
            if len(f) >= 3 and f[0] == 'property=' + pid:
                out.append((f[1], f[2]))
    return out


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    random.seed(seed)
    server = ReplayServer(pid, tier)
    from . import patch
    patch.load()
    from . import sym
    jits = patch.apply()
    mod = load_check(pid)
    if getattr(mod, 'WARM', True):
        for j in jits.values():
            try:
                j(100.0, 40.0, 0.0065)
            except Exception:
                pass
    snap = patch.Snapshot()
    cases = mod.cases(tier)
    total = getattr(mod, 'TOTAL', {}).get(
        tier, 600 if tier == 'quick' else 3000)
    hard = t0 + total
    import gc
    gc.disable()
    gc.freeze()
    results = pool([lambda c=c: run_case(c, tier, snap, hard)
                    for c in cases], JOBS, hard + 60)
    t1 = time.time()
    crashes = [(c.name, r['crash'] if r else 'no time left') for c, r in zip(cases, results)
               if r is None or 'crash' in r]
    results = [r for r in results if r and 'crash' not in r]
    # ---- replay
    jobs = []
    stuck = 0
    for r in results:
        for lab, env in r['candidates']:
            stuck += lab.startswith('does not return')
            if lab.startswith('does not return') and stuck > 4:
                continue
            jobs.append(dict(case=r['name'], env=env, kind='candidate',
                             label=lab))
        for env, obs in r['witnesses']:
            jobs.append(dict(case=r['name'], env=env, kind='witness',
                             obs=obs))
    replies = server.run([dict(case=j['case'], env=j['env']) for j in jobs])
    t2 = time.time()
    validated = diverged = 0
    violations, unconfirmed, divergences = {}, [], []
    for j, rep in zip(jobs, replies):
        if rep.get('error'):
            unconfirmed.append('%s: replay error %s' % (j['case'],
                                                        rep['error'][:200]))
            continue
        for lab in rep['failed']:
            key = (lab)
            violations.setdefault(key, []).append((j, rep))
        if j['kind'] == 'candidate':
            if not rep['failed']:
                unconfirmed.append('%s: "%s" did not reproduce%s' % (
                    j['case'], j['label'],
                    ' (precondition)' if rep['skipped'] else ''))
        elif j['obs'] is not None:
            if rep['skipped']:
                diverged += 1
                divergences.append('%s: precondition lost' % j['case'])
            else:
                bad = [k for k, v in j['obs'].items()
                       if not same(v, rep['obs'].get(k))]
                if bad:
                    diverged += 1
                    divergences.append('%s: %s: model %r real %r' % (
                        j['case'], bad[0], short(j['obs'][bad[0]]),
                        short(rep['obs'].get(bad[0]))))
                else:
                    validated += 1
    # ---- report
    findings = known_findings(pid)
    new, seen_known = [], set()
    for lab, lst in violations.items():
        hit = [f for f in findings if f[0] == lab]
        if hit:
            seen_known.add(hit[0])
        else:
            new.append((lab, lst))
    for f in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, f[0], f[1]))
    tot = lambda k: sum(r[k] for r in results)
    rc = 0
    if new:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for n, (lab, lst) in enumerate(new[:10]):
            j, rep = lst[0]
            p = os.path.join(ROOT, 'replays', '%s-%d.json' % (pid, n))
            with open(p, 'w') as f:
                json.dump(dict(property=pid, tier=tier, case=j['case'],
                               label=lab, inputs=j['env'],
                               detail=rep.get('detail'),
                               rerun='./check replay %s' % p), f, indent=1)
            print('  violated: %s [case %s]' % (lab, j['case']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        rc = 1
    problems = []
    for name, c in crashes:
        problems.append('case %s crashed: %s' % (name, c[-600:]))
    for r in results:
        for x in r['errors']:
            problems.append('%s: %s' % (r['name'], x))
        if r['n_unsupported']:
            problems.append('%s: %d path(s) not encodable: %s' % (
                r['name'], r['n_unsupported'], r['unsupported'][:2]))
        if r['n_undecided']:
            problems.append('%s: %d obligation(s) undecided by the solver: %s'
                            % (r['name'], r['n_undecided'],
                               r['undecided'][:2]))
        if not r['complete']:
            problems.append('%s: %d path prefix(es) left unexplored (budget)'
                            % (r['name'], r['unexplored']))
        if r['n_concretised']:
            problems.append('%s: %d value(s) concretised: %s' % (
                r['name'], r['n_concretised'], r['concretised']))
        if r['paths'] == 0 and not r['candidates']:
            problems.append('%s: no path reached the end%s' % (
                r['name'], ' (%s)' % r['last_exc'] if r['last_exc'] else ''))
        if r['last_exc'] and not new:
            problems.append('%s: %s' % (r['name'], r['last_exc']))
    problems.extend(unconfirmed)
    problems.extend('model differs from the real run: ' + d
                    for d in divergences)
    for p in problems[:12]:
        print('NOTE: ' + p)
    samples = []
    for r in results:
        for env, obs in r['witnesses'][:1]:
            samples.append(dict(case=r['name'], inputs=trim(env),
                                observed=trim(obs or {})))
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('branches') + tot('forks'),
            traces_validated_against_impl=validated,
            samples=samples[:6],
            obligations=tot('obligations'), discharged=tot('discharged'),
            discharged_by_normal_form=tot('syntactic'),
            discharged_by_interval_bound=tot('by_interval'),
            branch_queries=tot('branches'), forks=tot('forks'),
            branches_decided_by_bounds=tot('interval'),
            infeasible_or_assumed_away=tot('aborted'),
            solver_queries=tot('queries'), unsat=tot('unsat'),
            sat=tot('sat'), unknown=tot('unknown'),
            refinement_rounds=tot('refinements'),
            unsat_by_branch_and_prune=tot('icp'), boxes=tot('boxes'),
            solver_seconds=round(tot('solver_seconds'), 2),
            cases={r['name']: dict(paths=r['paths'], vars=r['nvars'],
                                   obligations=r['obligations'],
                                   discharged=r['discharged'],
                                   complete=r['complete'],
                                   seconds=round(r['seconds'], 1))
                   for r in results},
            functions_encoded=sorted({f for r in results
                                      for f in r['encoded']}),
            bounds=mod.BOUNDS, outside=mod.OUTSIDE,
            replays=len(jobs), diverged=diverged,
            limits_hit=problems[:30],
            known_findings=['%s (%s)' % f for f in sorted(seen_known)],
            explanation='states = symbolic paths explored to the end; '
            'transitions = branch points put to the solver plus forks; '
            'traces_validated = path witnesses re-run on the unmodified code '
            'whose observed values agree with the symbolic ones'),
        assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
        violations=len(new))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    txt = json.dumps(ev, indent=1, default=str)
    if len(txt) > 60000:
        ev['coverage']['cases'] = {k: v for k, v in list(
            ev['coverage']['cases'].items())[:60]}
        ev['coverage']['samples'] = ev['coverage']['samples'][:2]
        txt = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        f.write(txt + '\n')
    print('%s %s: %d cases, %d paths, %d obligations (%d discharged), %d '
          'queries, %.1f s solver, %d/%d witnesses agree, %.1f+%.1f s%s' % (
              pid, tier, len(results), tot('paths'), tot('obligations'),
              tot('discharged'), tot('queries'), tot('solver_seconds'),
              validated, validated + diverged, t1 - t0, t2 - t1,
              '' if not problems else ', %d note(s)' % len(problems)))
    if rc == 0 and crashes and len(crashes) == len(cases):
        return 2
    return rc


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:160] + '...'


def trim(d):
    out = {}
    for k, v in list(d.items())[:14]:
        s = v
        if isinstance(v, str) and '/' in v:
            try:
                f = Fraction(v)
                s = float(f) if f.denominator != 1 else int(f)
            except ValueError:
                pass
        if isinstance(s, list) and len(s) > 8:
            s = s[:8] + ['...']
        out[k] = s
    return out
