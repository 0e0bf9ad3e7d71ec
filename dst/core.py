"""Runner: seeds -> simulated runs in forked processes -> violations, minimised replays, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time as _t
import traceback

from . import seams
from .seams import MON, CLOCK, StepLimit

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STEP_CAP = 4_000_000
RUN_WALL = 240.0


class Violation(Exception):
    def __init__(self, kind, msg=''):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class OutOfDomain(Exception):
    """The run left the domain of the property (not an outcome of the library)."""


class LibRaised(Exception):
    """A library call raised; carries the exception. Turned into a violation unless the property expects it."""

    def __init__(self, exc, where):
        super().__init__('%s in %s' % (repr(exc)[:200], where))
        self.exc, self.where = exc, where


def _site(tb):
    """Innermost frame inside the library, by function (names, not line numbers)."""
    site = '?'
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(seams.PREFIX):
            site = '%s:%s' % (os.path.basename(c.co_filename), c.co_name)
        tb = tb.tb_next
    return site


class Ctx:
    def __init__(self):
        self.h = hashlib.sha256()
        self.nlog = 0
        self.tail = []
        self.counts = {}
        self.nontrivial = False
        self.states = set()
        self.simtime = 0.0
        self.evals = 0
        self.full = None

    # -- log: never draws randomness, never reads a clock
    def log(self, *a):
        s = repr(a)
        self.h.update(s.encode())
        self.nlog += 1
        if len(self.tail) < 40:
            self.tail.append(s[:300])
        if self.full is not None:
            self.full.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def state(self, *a):
        self.states.add(hashlib.sha256(repr(a).encode()).hexdigest()[:16])

    def judged(self, n=1):
        self.evals += n

    def viol(self, kind, msg=''):
        raise Violation(kind, msg)

    def ensure(self, ok, kind, msg=''):
        self.evals += 1
        if not ok:
            raise Violation(kind, msg() if callable(msg) else msg)

    def call(self, fn, *a, cap=STEP_CAP, what=None, **k):
        """Run a library operation with a bound on executed steps."""
        MON.limit = MON.steps + cap
        try:
            return fn(*a, **k)
        except StepLimit:
            raise Violation('no-termination', '%s did not finish within %d steps' % (what or getattr(fn, '__name__', fn), cap))
        except (Violation, OutOfDomain, LibRaised):
            raise
        except Exception as e:
            raise LibRaised(e, '%s [%s]' % (what or getattr(fn, '__name__', '?'), _site(e.__traceback__)))
        finally:
            MON.limit = None

    def judging(self, what):
        return _Judging(what)


class _Judging:
    """Everything evaluated inside works on values the library returned; failing to make sense of them is a violation."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, (Violation, LibRaised, OutOfDomain)):
            return False
        raise Violation('malformed-answer', '%s: %s' % (self.what, repr(ev)[:200])) from ev


def execute(mod, trace, full=False):
    """One simulated run in this process. Returns a result dict."""
    ctx = Ctx()
    if full:
        ctx.full = []
    seed_globals(trace.get('seed', 0))
    real_out = sys.stdout
    sys.stdout = seams.SimStdout()
    res = dict(status='ok', kind=None, msg=None)
    try:
        mod.execute(trace, ctx)
    except Violation as v:
        res.update(status='violation', kind=v.kind, msg=v.msg)
    except LibRaised as e:
        res.update(status='violation', kind='raised-' + type(e.exc).__name__, msg=str(e))
    except OutOfDomain as e:
        res.update(status='skip', msg=str(e))
    except BaseException:
        res.update(status='error', msg=traceback.format_exc()[-3000:])
    finally:
        sys.stdout = real_out
        CLOCK.clock = None
        MON.sched = None
        MON.fault_at = None
    ctx.log('end', res['status'], res['kind'])
    res['extra'] = getattr(ctx, 'extra', None)
    res.update(digest=ctx.h.hexdigest(), nlog=ctx.nlog, counts=ctx.counts, nontrivial=ctx.nontrivial,
               states=sorted(ctx.states)[:200], simtime=ctx.simtime, evals=ctx.evals, tail=ctx.tail, full=ctx.full,
               steps=MON.steps)
    return res


def seed_globals(s):
    import numpy as np
    np.random.seed(int(s) & 0x7fffffff)
    random.seed(int(s))


def forked(fn, timeout=RUN_WALL):
    """Run fn() in a forked child, return its (picklable) result; {'status': 'hang'} if it exceeds the wall watchdog."""
    r, w = os.pipe()
    sys.stdout.flush()
    st = random.getstate()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            random.setstate(st)     # python reseeds it in forked children
            os.close(r)
            out = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        except BaseException:
            try:
                sys.__stderr__.write(traceback.format_exc())
            except Exception:
                pass
            code = 9
        os._exit(code)
    os.close(w)
    buf = []
    end = seams.wall() + timeout
    try:
        while True:
            left = end - seams.wall()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return dict(status='hang', kind=None, msg='wall watchdog', counts={}, nontrivial=False, states=[], simtime=0.,
                            evals=0, digest='hang', tail=[], steps=0, nlog=0)
            rd, _, _ = select.select([r], [], [], min(left, 5))
            if rd:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                buf.append(b)
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not buf:
        return dict(status='error', kind=None, msg='run process died with status %s' % st, counts={}, nontrivial=False,
                    states=[], simtime=0., evals=0, digest='died', tail=[], steps=0, nlog=0)
    return pickle.loads(b''.join(buf))


def run_trace(mod, trace, full=False, timeout=RUN_WALL):
    return forked(lambda: execute(mod, trace, full), timeout)


def gen_trace(mod, seed, i, tier):
    rng = random.Random('%s:%s:%s' % (seed, mod.PROP, i))
    tr = mod.gen(rng, tier, i)
    tr.setdefault('seed', rng.getrandbits(30))
    return json.loads(json.dumps(tr))


# ------------------------------------------------------------------ minimisation
def _floats(o, path=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from _floats(o[k], path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _floats(v, path + (i,))
    elif isinstance(o, float):
        yield path, o


def _set(o, path, v):
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = v


def minimise(mod, trace, kind, wall=60.0, maxruns=500):
    t_end = seams.wall() + wall
    runs = [0]

    def bad(tr):
        if runs[0] >= maxruns or seams.wall() > t_end:
            return False
        runs[0] += 1
        r = run_trace(mod, tr, timeout=60)
        return r['status'] == 'violation' and r['kind'] == kind

    def cp(x):
        return json.loads(json.dumps(x))

    keys = getattr(mod, 'SHRINK', ['ops'])
    for key in keys:
        if not isinstance(trace.get(key), list):
            continue
        n = 2
        while len(trace[key]) >= 1:
            items = trace[key]
            size = max(1, len(items) // n)
            shrunk = False
            for st in range(0, len(items), size):
                tr = cp(trace)
                tr[key] = items[:st] + items[st + size:]
                if bad(tr):
                    trace = tr
                    shrunk = True
                    break
            if shrunk:
                n = max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(n * 2, max(2, len(items)))
            if runs[0] >= maxruns or seams.wall() > t_end:
                break
    # nested lists inside ops (queries, per-thread lists, jumps, faults)
    for oi in range(len(trace.get('ops', []))):
        op = trace['ops'][oi]
        for k in sorted(op):
            if isinstance(op[k], list) and k in getattr(mod, 'SHRINK_IN', ('q', 'jumps', 'queries', 'switches')):
                j = 0
                while j < len(trace['ops'][oi][k]):
                    tr = cp(trace)
                    del tr['ops'][oi][k][j]
                    if bad(tr):
                        trace = tr
                    else:
                        j += 1
    for nd in (0, 1, 2):
        tr = cp(trace)
        ch = False
        for p, v in list(_floats(tr)):
            if round(v, nd) != v:
                _set(tr, p, round(v, nd))
                ch = True
        if ch and bad(tr):
            trace = tr
            break
    for p, v in list(_floats(trace)):
        for nd in (0, 1, 2):
            if round(v, nd) == v:
                break
            tr = cp(trace)
            _set(tr, p, round(v, nd))
            if bad(tr):
                trace = tr
                break
        if runs[0] >= maxruns or seams.wall() > t_end:
            break
    return trace, runs[0]


# ------------------------------------------------------------------ known findings
def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'known']


def match_known(known, kind, trace):
    s = json.dumps(trace, sort_keys=True)
    h = hashlib.sha256(s.encode()).hexdigest()
    for k in known:
        if k['kind'] == kind and h in k.get('traces', []):
            return k
    return None


# ------------------------------------------------------------------ check
def worker(mod, seed, tier, idxs, wfd, nviol):
    out = os.fdopen(wfd, 'wb')
    for i in idxs:
        if nviol.value >= 6:
            break
        try:
            tr = gen_trace(mod, seed, i, tier)
        except BaseException:
            res = dict(status='error', kind=None, msg='generator: ' + traceback.format_exc()[-2000:], counts={}, nontrivial=False,
                       states=[], simtime=0., evals=0, digest='gen', tail=[], steps=0, nlog=0)
        else:
            res = run_trace(mod, tr)
            if i % 37 == 5 and res['status'] in ('ok', 'skip'):
                again = run_trace(mod, tr)
                res['replayed'] = again['digest'] == res['digest']
        res.pop('full', None)
        if res['status'] == 'violation':
            nviol.value += 1
        b = pickle.dumps((i, res))
        out.write(struct.pack('<Q', len(b)) + b)
        out.flush()
    out.close()


def check(prop, tier):
    t0 = seams.wall()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('prop=%s tier=%s VERIF_SEED=%d repo=%s' % (prop, tier, seed, seams.REPO), flush=True)
    seams.install()
    mod = importlib.import_module('dst.props.' + prop.lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    n = int(os.environ.get('DST_RUNS', mod.RUNS[tier]))
    nw = int(os.environ.get('DST_WORKERS', '8'))
    limit = {'quick': 600.0, 'thorough': 840.0}[tier] if 'DST_WALL' not in os.environ else float(os.environ['DST_WALL'])
    import multiprocessing as mp
    nviol = mp.Value('i', 0)
    fds, pids = {}, []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            code = 0
            try:
                worker(mod, seed, tier, range(w, n, nw), wr, nviol)
            except BaseException:
                traceback.print_exc()
                code = 9
            os._exit(code)
        os.close(wr)
        fds[r] = b''
        pids.append(pid)
    results = {}
    open_fds = set(fds)
    truncated = False
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in rd:
            b = os.read(fd, 1 << 20)
            if not b:
                open_fds.discard(fd)
                os.close(fd)
                continue
            fds[fd] += b
            while len(fds[fd]) >= 8:
                ln = struct.unpack('<Q', fds[fd][:8])[0]
                if len(fds[fd]) < 8 + ln:
                    break
                i, res = pickle.loads(fds[fd][8:8 + ln])
                fds[fd] = fds[fd][8 + ln:]
                results[i] = res
        if seams.wall() - t0 > limit and open_fds:
            truncated = True
            for p in pids:
                try:
                    os.kill(p, signal.SIGTERM)
                except OSError:
                    pass
            break
    bad_worker = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0 and not truncated:
            bad_worker += 1
    t_run = seams.wall() - t0
    return finish(mod, prop, tier, seed, n, results, truncated, bad_worker, t0, t_run)


def finish(mod, prop, tier, seed, n, results, truncated, bad_worker, t0, t_run):
    known = load_known(prop)
    viols = {i: r for i, r in results.items() if r['status'] == 'violation'}
    errors = {i: r for i, r in results.items() if r['status'] in ('error', 'hang')}
    nondet = [i for i, r in results.items() if r.get('replayed') is False]
    skips = sum(1 for r in results.values() if r['status'] == 'skip')
    counts, states, digests = {}, set(), set()
    evals = simtime = steps = 0
    nontriv = 0
    for i in sorted(results):
        r = results[i]
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r['states'])
        evals += r['evals']
        simtime += r['simtime']
        steps += r['steps']
        if r['nontrivial']:
            nontriv += 1
            digests.add(r['digest'])
    code = 0
    reported = 0
    by_kind = {}
    for i in sorted(viols):
        by_kind.setdefault(viols[i]['kind'], []).append(i)
    lines = []
    for kind, idx in sorted(by_kind.items(), key=lambda kv: kv[1][0]):
        if reported >= 2:
            break
        tr = None
        for i in idx:
            t = gen_trace(mod, seed, i, tier)
            k = match_known(known, kind, t)
            if k is None:
                tr = t
                break
            ln = 'KNOWN-FINDING: property=%s %s' % (prop, k['what'])
            if ln not in lines:
                lines.append(ln)
        if tr is None:
            continue
        print('violation in run %d: %s: %s' % (i, kind, viols[i]['msg']), flush=True)
        if hasattr(mod, 'SHRINK') and 'switches' in mod.SHRINK:
            # the schedule drawn becomes an explicit list, so that it can be minimised and replayed
            ex = run_trace(mod, tr)
            if ex['status'] == 'violation' and ex.get('extra'):
                t2 = dict(tr, **ex['extra'])
                r2 = run_trace(mod, t2)
                if r2['status'] == 'violation' and r2['kind'] == kind:
                    tr = t2
        small, runs = minimise(mod, tr, kind, wall=float(os.environ.get('DST_MINWALL', '45')))
        r = run_trace(mod, small, full=True)
        if not (r['status'] == 'violation' and r['kind'] == kind):
            small, r = tr, run_trace(mod, tr, full=True)
        rp = os.path.join(HERE, 'replays', '%s-s%d-r%d.json' % (prop, seed, i))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=seed, run=i, tier=tier, kind=kind, message=r.get('msg'), digest=r['digest'],
                           minimised_with_runs=runs, original_ops=len(tr.get('ops', [])), ops=len(small.get('ops', [])),
                           trace=small, events=(r.get('full') or [])[-60:]), f, indent=1)
        print('minimised %d -> %d ops (%d runs): %s' % (len(tr.get('ops', [])), len(small.get('ops', [])), runs, r.get('msg')), flush=True)
        lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
        reported += 1
        code = 1
    if code == 0 and (errors or nondet or bad_worker):
        code = 2
        for i in list(errors)[:3] if code == 2 else []:
            print('ERROR run %d: %s: %s' % (i, errors[i]['status'], errors[i]['msg']))
        if nondet:
            print('ERROR: runs not reproducible: %s' % nondet[:10])
        if bad_worker:
            print('ERROR: %d worker(s) failed' % bad_worker)
    if code == 0 and len(results) < max(1, n // 4):
        print('ERROR: only %d of %d runs finished in time' % (len(results), n))
        code = 2
    wall = seams.wall() - t0
    samples = []
    for i in sorted(results)[:3]:
        samples.append(dict(run=i, trace_head=json.dumps(gen_trace(mod, seed, i, tier))[:700], events=results[i]['tail'][:8]))
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault:')}
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(digests), rule=mod.RULE, samples=samples,
                            planned_runs=n, truncated=truncated, runs_skipped_out_of_domain=skips,
                            oracle_evaluations=evals, runs_per_hour=int(len(results) / max(t_run, 1e-3) * 3600),
                            simulated_seconds=round(simtime, 3), library_steps_executed=steps,
                            faults_injected=faults,
                            probes={k: v for k, v in sorted(counts.items()) if not k.startswith('fault:')},
                            distinct_states=len(states), distinct_states_measure=getattr(mod, 'STATE_MEASURE', 'hash of event kinds and outcomes'),
                            replayed_twice=sum(1 for r in results.values() if 'replayed' in r),
                            components_real=getattr(mod, 'REAL', 'all of utils, obstacles, starshaped_hull; numpy, shapely/GEOS, scipy'),
                            components_stub=getattr(mod, 'STUB', 'clock (time module), numpy global random stream seed, stdout, matplotlib show')),
              assumptions=getattr(mod, 'ASSUME', []) + ['a clean batch is evidence, not proof: runs are sampled'],
              wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    zero = [p for p in getattr(mod, 'PROBES', []) if not counts.get(p)]
    if zero:
        print('note: probes never hit: %s' % ', '.join(zero))
    print('runs=%d skipped=%d distinct_nontrivial=%d oracle_evaluations=%d faults=%s violations=%d errors=%d wall=%.1fs' %
          (len(results), skips, len(digests), evals, json.dumps(faults), len(viols), len(errors), wall))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return code


def replay(path):
    d = json.load(open(path))
    seams.install()
    mod = importlib.import_module('dst.props.' + d['property'].lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    r = run_trace(mod, d['trace'], full=True)
    for e in (r.get('full') or [])[-40:]:
        print('  ', e[:400])
    print('status=%s kind=%s msg=%s' % (r['status'], r['kind'], r['msg']))
    if r['status'] == 'violation':
        same = r['kind'] == d['kind'] and r['digest'] == d['digest']
        print('reproduces exactly: %s' % same)
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0 if r['status'] in ('ok', 'skip') else 2


def main(argv):
    try:
        if argv[0] == 'replay':
            return replay(argv[1])
        return check(argv[0].upper(), argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    from dst.core import main as _main    # one copy of the exception classes
    sys.exit(_main(sys.argv[1:]))
