"""C13: an aborted query or plan never poisons later answers. The history with aborted calls is compared with a forked twin
in which those calls were never made."""
import numpy as np
import shapely

from ..bodyworld import frame, gen_point, gen_spawn, make_body, rnd
from ..core import LibRaised, OutOfDomain, Violation
from ..planworld import PlanWorld, branch, count_faults, gen_loop
from ..regions import BODY_FIXED, BODY_Q, REGION_Q, applies, ask, norm, combined
from ..seams import CLOCK, MON, SimClock, SimStdout
import sys

PROP = 'C13'
RUNS = dict(quick=700, thorough=18000)
RULE = 'a run in which a call was aborted in the middle and later answers were compared; distinct by digest of the event and fault log'
PROBES = ['aborted:plan', 'aborted:query', 'aborted:region', 'aborted:draw', 'aborted:xr', 'aborted:first-query', 'compared-plan-after-abort', 'compared-region-after-abort',
          'reference-queries-after-abort']
STATE_MEASURE = 'distinct (aborted call, exception, function it hit) tuples and plan outcomes'
PROF = dict(spawn=0, swap=0, budget=0, mi=.1, ws=.1, ex=.15, mc=.35, steps=(2, 6), n=[1, 2, 3, 3, 4, 4, 5], vb=.4, hist=.05, lose=0)
EXC = ['memory', 'memory', 'interrupt', 'interrupt', 'geos', 'geos', 'oserror']
SHRINK_IN = ('q',)
FRESH_Q = sorted(set(BODY_Q) - {'dilate'})     # a dilated ellipse is built from whichever form exists: equal only within tolerance


def make_exc(k):
    if k == 'memory':
        return MemoryError('injected')
    if k == 'interrupt':
        return KeyboardInterrupt('injected')
    if k == 'geos':
        return shapely.errors.GEOSException('injected')
    return OSError(28, 'injected')


def rq(rng, k, spread=4.):
    return dict(k=k, x=[rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))],
                y=[rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))], f=rng.choice('go'), of=rng.choice('go'))


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    names = [o['id'] for o in ops if o['op'] == 'spawn']
    sp = {o['id']: o for o in ops if o['op'] == 'spawn'}
    out = []
    for op in ops:
        if op['op'] != 'spawn':
            for _ in range(rng.choice([0, 1, 1, 2])):
                r = rng.random()
                a = dict(op='abort', u=rnd(rng.random()), exc=rng.choice(EXC))
                if r < .25:
                    base = op if op['op'] == 'plan' else dict([o for o in ops if o['op'] == 'plan'][-1])
                    a.update(what='plan', plan={k: v for k, v in base.items() if k not in ('op', 'lose', 'hist')})
                    if rng.random() < .3:
                        a['plan']['vb'] = a['plan']['tv'] = True
                        if rng.random() < .5:
                            a['exc'] = 'stdout'
                elif r < .42 and names:
                    a.update(what='query', id=rng.choice(names), other=rng.choice(names), q=rq(rng, rng.choice(BODY_Q)))
                elif r < .52 and names:
                    n = rng.choice(names)
                    s = sp[n]
                    from .. import geom
                    p = geom.interior_point(rng, s['v']) if s['kind'] != 'ellipse' else [rnd(s['a'][0] * rng.uniform(-.6, .6)), rnd(s['a'][1] * rng.uniform(-.6, .6))]
                    a.update(what='xr', id=n, p=p, safe=rng.random() < .4)
                elif r < .92:
                    a.update(what='region', i=rng.randrange(8), q=rq(rng, rng.choice(REGION_Q)))
                elif names:
                    a.update(what='draw', id=rng.choice(names))
                else:
                    continue
                out.append(a)
        if rng.random() < .5:
            out.append(gen_fresh(rng))
        out.append(op)
        if op['op'] != 'spawn' and rng.random() < .4 and names:
            n = rng.choice(names)
            out.append(dict(op='query', id=n, q=[dict(k=rng.choice(['bm', 'df', 'nrm', 'loc', 'xr', 'polygon', 'kernel', 'tan', 'rdir']), f=rng.choice('go'),
                                                      of=rng.choice('go'), p=gen_point(rng, sp[n])) for _ in range(rng.randrange(1, 4))]))
        if op['op'] == 'plan' and rng.random() < .6:
            out.append(dict(op='regions', q=[rq(rng, rng.choice(REGION_Q)) for _ in range(rng.randrange(2, 7))]))
    out.append(dict(op='regions', q=[rq(rng, k) for k in REGION_Q]))
    return dict(ops=out)


def gen_fresh(rng):
    """an obstacle of its own, whose very first queries are the aborted ones"""
    sp = gen_spawn(rng, 'f', ('ellipse', 'spoly', 'poly', 'star', 'star', 'npoly'), ('static', 'sin', None))
    return dict(op='fresh', sp=sp, q=[dict(rq(rng, rng.choice(BODY_Q)), u=rnd(rng.random()), exc=rng.choice(EXC)) for _ in range(rng.randrange(1, 4))],
                p=[gen_point(rng, sp) for _ in range(2)])


def fresh(op, ctx, aborts):
    """returns (answers, number of aborted calls)"""
    b = ctx.call(make_body, op['sp'], what='construct')
    n = 0
    if aborts:
        for q in op['q']:
            if applies(b.kind, q['k']):
                n += interrupt(ctx, lambda: ask(b.ob, q, other=b.ob), q, 'first-query:' + q['k'])
    out = {}
    for of in 'go':
        for k in FRESH_Q:
            if applies(b.kind, k):
                for i, p in enumerate(op['p']):
                    q = dict(k=k, f='o', of=of, x=p, y=[3., 1.])
                    out[k + of + str(i)] = safe_norm(lambda: ask(b.ob, q, other=b.ob))
    return out, n


def safe_norm(fn):
    try:
        return norm(fn())
    except Exception as e:          # noqa: an answer too; the twin must give the same
        return ('raised', type(e).__name__)


def plan_digest(p):
    """identifiers may differ: the aborted plan may have used some up"""
    return (p.flag, p.n_iter, [tuple(m) for m in p.members], [None if r is None else r.wkb for r in p.regions],
            [None if k is None else k.tobytes() for k in p.kp], [None if x is None else x.tobytes() for x in p.xr] if p.flag else None)


def body_digest(w, n):
    ob = w.b[n].ob
    out = {}
    for k in BODY_FIXED:
        for of in 'go':
            q = dict(k=k, f='g', of=of, x=[.3, .4], y=[-3., 1.])
            if applies(w.b[n].kind, k):
                out[k + of] = safe_norm(lambda: ask(ob, q))
    return out


def simulate(trace, ctx, aborts, stats=None):
    CLOCK.clock = SimClock()
    w = PlanWorld(ctx)
    log = []
    hit = [0]

    def settle(op):
        for q in ('x', 'xg'):
            if not w.general(getattr(w, q)) and op.get('rc'):
                w.place(op['rc'], q)

    for j, op in enumerate(trace['ops']):
        k = op['op']
        if k == 'abort':
            if op['what'] == 'plan':
                settle(op['plan'])
            if aborts:
                hit[0] += abort(w, op, ctx, log)
        elif k == 'fresh':
            res, n = fresh(op, ctx, aborts)
            hit[0] += n
            log.append((j, 'fresh', res))
        elif k == 'plan':
            settle(op)
            r = None
            try:
                p = w.plan(op)
            except LibRaised as e:
                log.append((j, 'plan-raised', type(e.exc).__name__, str(e)))
                continue
            log.append((j, 'plan', plan_digest(p)))
            if aborts and hit[0]:
                ctx.count('compared-plan-after-abort')
        elif k == 'regions':
            if not w.plans:
                continue
            p = w.plans[-1]
            res = []
            for c, cb in zip(p.clusters, p.comb):
                if not cb:
                    continue
                for q in op['q']:
                    if applies(None, q['k'], True) and combined(c.cluster_obstacle):
                        res.append(safe_norm(lambda: ask(c.cluster_obstacle, q, cl=c)))
                if aborts and hit[0]:
                    ctx.count('compared-region-after-abort')
            log.append((j, 'regions', res))
        elif k == 'query':
            b = w.b.get(op['id'])
            if b is None:
                continue
            for q in op['q']:
                w.query(op['id'], q)
            if aborts and hit[0]:
                ctx.count('reference-queries-after-abort')
        else:
            w.event(op)
            if aborts:
                count_faults(ctx, op)
        if k in ('tick', 'plan', 'regions') and w.b and (j % 3 == 0 or j == len(trace['ops']) - 1):
            d = branch(lambda: {n: body_digest(w, n) for n in sorted(w.b)})
            log.append((j, 'bodies', d[1] if d[0] == 'ok' else d))
    return log, hit[0]


def interrupt(ctx, call, op, what):
    """call() with the fault op['exc'] at the fraction op['u'] of the calls it makes; returns whether that was possible"""
    def probe():
        so = sys.stdout
        c0, w0 = MON.calls, so.writes
        try:
            call()
        except LibRaised:
            pass
        except Exception:
            pass
        return MON.calls - c0, so.writes - w0
    r = branch(probe)
    if r[0] != 'ok':
        return 0
    calls, writes = r[1]
    rs = np.random.get_state()
    c0 = CLOCK.clock
    if op['exc'] == 'stdout':
        if not writes:
            return 0
        sys.stdout.fail_at = sys.stdout.writes + 1 + int(op['u'] * writes)
        sys.stdout.exc = OSError(32, 'injected: broken pipe')
    else:
        if not calls:
            return 0
        MON.fault_fired = None
        MON.fault_exc = make_exc(op['exc'])
        MON.fault_at = MON.calls + 1 + int(op['u'] * calls)
    fired = None
    try:
        call()
    except OutOfDomain:
        raise
    except BaseException as e:      # noqa: the injected fault, or what became of it
        fired = type(e.exc).__name__ if isinstance(e, LibRaised) else type(e).__name__
    finally:
        MON.fault_at = None
        sys.stdout.fail_at = None
    np.random.set_state(rs)
    where = MON.fault_fired if op['exc'] != 'stdout' else 'print'
    ctx.count('fault:' + dict(memory='failed-allocation', interrupt='interrupt', geos='geometry-backend-error', oserror='os-error',
                              stdout='broken-stdout')[op['exc']])
    ctx.count('aborted:' + what.split(':')[0])
    ctx.log('abort', what, op['exc'], where, fired)
    ctx.state('abort', what, op['exc'], where)
    return 1


def abort(w, op, ctx, log):
    """perform a call and abort it part way; returns whether it was aborted"""
    what = op['what']
    if what == 'plan':
        po = dict(op['plan'], op='plan')

        def call():
            p0, l0 = list(w.plans), w.last
            try:
                w.plan(po)
            finally:
                w.plans[:] = p0       # what an aborted plan would have returned is not known to anyone
                w.last = l0
    elif what == 'query':
        b, o = w.b.get(op['id']), w.b.get(op['other'])
        if b is None or o is None or not applies(b.kind, op['q']['k']):
            return 0

        def call():
            ask(b.ob, op['q'], other=o.ob)
    elif what == 'xr':
        b = w.b.get(op['id'])
        if b is None or not b.star or b.shape.side(op['p']) > -1e-3:
            return 0

        def call():
            b.ob.set_xr(np.array(op['p'], float), frame('o'), op['safe'])
    elif what == 'region':
        if not w.plans or not w.plans[-1].clusters:
            return 0
        p = w.plans[-1]
        i = op['i'] % len(p.clusters)
        c = p.clusters[i]
        if not p.comb[i] or not applies(None, op['q']['k'], True) or not combined(c.cluster_obstacle):
            return 0

        def call():
            ask(c.cluster_obstacle, op['q'], cl=c)
    else:
        b = w.b.get(op['id'])
        if b is None:
            return 0
        import matplotlib.pyplot as plt

        def call():
            try:
                b.ob.draw()
            finally:
                f = MON.fault_at
                MON.fault_at = None
                plt.close('all')
                MON.fault_at = f

    if not interrupt(ctx, call, op, what):
        return 0
    # whatever reference point the obstacles have now, it must be inside them and all later answers must agree with it
    for n, b in w.b.items():
        if b.star:
            q = np.asarray(b.ob.xr(frame('o')), float).copy()
            if b.xr is None or not np.array_equal(q, b.xr):
                if what == 'xr' and n == op['id']:
                    ctx.ensure(np.allclose(q, op['p'], atol=1e-6) or b.xr is None or np.allclose(q, b.xr, atol=1e-9), 'xr-garbled',
                               lambda: 'reference point of %s is %s, was %s, requested %s' % (n, q, b.xr, op['p']))
                else:
                    ctx.ensure(what == 'plan' or b.xr is None, 'xr-changed', lambda: 'aborted %s changed the reference point of %s' % (what, n))
                s = b.shape.side(q)
                ctx.ensure(s < 1e-6 + (1.1e-3 if b.kind == 'ellipse' else 0), 'xr-outside', lambda: 'reference point %s of %s outside by %g' % (q, n, s))
                b.xr = q
    return 1


def execute(trace, ctx):
    bare = branch(lambda: simulate(trace, ctx, False)[0])
    if bare[0] != 'ok':
        raise OutOfDomain('the history without aborts fails: %s' % (bare[1:],))
    log, hits = simulate(trace, ctx, True)
    ctx.nontrivial = hits > 0
    a, b = bare[1], log
    for x, y in zip(a, b):
        ctx.judged()
        if x == y:
            continue
        if x[:2] != y[:2]:
            ctx.viol('after-abort-other-outcome', 'event %s: without aborts %s, with %s' % (x[0], x[1:2] + x[2:4] if x[1] == 'plan-raised' else x[1],
                                                                                   y[1:2] + y[2:4] if y[1] == 'plan-raised' else y[1]))
        if x[1] == 'plan':
            names = ('flag', 'iterations', 'clusters', 'regions', 'kernel points', 'reference points')
            ctx.viol('after-abort-plan', 'event %d: %s of the plan differ from those without aborts' %
                     (x[0], ', '.join(n for n, u, v in zip(names, x[2], y[2]) if u != v)))
        if x[1] == 'bodies':
            ctx.viol('after-abort-body', 'event %d: answers differ: %s' %
                     (x[0], [(n, k) for n in x[2] for k in x[2][n] if y[2][n].get(k) != x[2][n][k]][:6]))
        if x[1] == 'plan-raised':
            continue
        if x[1] == 'fresh':
            ctx.viol('after-abort-first-query', 'event %d: answers of an obstacle whose first queries were aborted differ: %s' %
                     (x[0], [k for k in x[2] if y[2].get(k) != x[2][k]][:6]))
        qs = trace['ops'][x[0]]['q']
        ctx.viol('after-abort-region', 'event %d: answers about regions differ: %s' %
                 (x[0], [qs[i % len(qs)] for i, (u, v) in enumerate(zip(x[2], y[2])) if u != v][:4]))
    ctx.ensure(len(a) == len(b), 'after-abort-history', 'length')
