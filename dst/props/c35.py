"""C35: planners working side by side do not disturb each other. Several simulated threads each build their own scene, move it,
plan and plan again; every one of them is first run alone in a forked twin."""
import random

import numpy as np

from ..core import Ctx, LibRaised, OutOfDomain, Violation
from ..planworld import PlanWorld, branch, gen_loop
from ..seams import CLOCK, MON, CoopSched, Deadlock, SimClock, StepLimit

PROP = 'C35'
RUNS = dict(quick=450, thorough=12000)
RULE = 'a run in which planners were switched while inside library code and their plans compared with those made alone; distinct by digest of the plan log'
PROBES = ['planners:2', 'planners:3', 'switched-in-a-plan', 'warm-plans-compared', 'merged-plans-compared', 'copies-made', 'hull-queries-compared']
STATE_MEASURE = 'distinct (scenes, switch positions modulo nothing) interleavings'
REAL = 'all of utils, obstacles, starshaped_hull; numpy, shapely/GEOS; real CPython threads released one at a time'
STUB = 'thread scheduler, clock (time module), stdout; numpy random stream seeded, one of its own per thread; locks the library asks for'
SHRINK = ['switches', 'ops']
SHRINK_IN = ()
PROF = dict(budget=0, mi=.08, ws=.15, ex=.2, mc=.3, steps=(1, 4), n=[1, 2, 2, 3, 3, 4], nid=0, vb=.05, hist=.1, groups=.2)


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3])
    per = []
    base = None
    for k in range(n):
        if base is not None and rng.random() < .35:
            # the same scene planned by two, each with obstacles of its own
            ops = [dict(o) for o in base]
        else:
            ops = gen_loop(rng, tier, PROF)
            base = ops
        out = []
        for o in ops:
            o = dict(o, by=k)
            if o['op'] == 'plan':
                o['clock'] = {}
            out.append(o)
            if o['op'] == 'spawn' and rng.random() < .3:
                out.append(dict(op=rng.choice(['copy', 'copy', 'dilate']), id=o['id'], new='c' + o['id'], idm='new', pad=.1, by=k,
                                mm=dict(m='static', pos=[0., 0.], rot=0.)))
        per.append(out)
    ops = []
    while any(per):
        ops.append(rng.choice([p for p in per if p]).pop(0))
    return dict(ops=ops, n=n, s=rng.getrandbits(30), rate=rng.choice([.0003, .001, .003, .01, .05]), first=rng.randrange(n),
                focus=rng.choice([None, [rng.getrandbits(20), 30, .5], [rng.getrandbits(20), 100, .7]]))


class Side(Ctx):
    """what a planner keeps to itself; how long it may take is for the scheduler to say"""

    def call(self, fn, *a, cap=None, what=None, **k):
        try:
            return fn(*a, **k)
        except (Violation, OutOfDomain, LibRaised):
            raise
        except Exception as e:
            raise LibRaised(e, what or '?')


def seen(p):
    return (p.flag, p.n_iter, [tuple(m) for m in p.members], [None if r is None else r.wkb for r in p.regions], [None if k is None else k.tobytes() for k in p.kp],
            [None if x is None else x.tobytes() for x in p.xr], [type(c.cluster_obstacle).__name__ for c in p.clusters])


def worker(ops, k):
    def run():
        ctx = Side()
        w = PlanWorld(ctx)
        out, ids, cids = [], [], set()
        np.random.seed(k + 1)
        for o in ops:
            try:
                if o['op'] == 'plan':
                    p = w.plan(o)
                    out.append(('plan', seen(p), bool(p.prev), any(len(m) > 1 for m in p.members)))
                    if p.flag:
                        cids |= {c for c, b in zip(p.cid, p.comb) if b}
                        for c, b in zip(p.clusters, p.comb):
                            if b:
                                q = c.cluster_obstacle
                                a = [q.is_convex()] + [q.point_location(np.array(z)) for z in (p.x, p.xg)]
                                out.append(('region', a))
                elif w.event(dict(o)):
                    if o['op'] in ('spawn', 'copy', 'dilate'):
                        ids.append(w.b[o.get('new') or o['id']].ob.id())
                        if o['op'] != 'spawn':
                            # the copy was wanted for its identifier, the scene goes on without it
                            w.gone.append(w.b.pop(o['new']))
                            out.append(('copied',))
            except LibRaised as e:
                out.append(('raised', type(e.exc).__name__))
                break
            except Violation as e:
                out.append(('odd', e.kind))
                break
            except OutOfDomain:
                out.append(('skip',))
                break
        return out, ids, cids
    return run


def execute(trace, ctx):
    n = trace['n']
    per = [[o for o in trace['ops'] if o['by'] == k] for k in range(n)]
    alone = []
    for k in range(n):
        def solo():
            CLOCK.clock = SimClock()
            s0 = MON.steps
            r = worker(per[k], k)()
            return r[0], MON.steps - s0
        r = branch(solo)
        if r[0] != 'ok':
            raise OutOfDomain('alone: %s' % (r[1:],))
        alone.append(r[1])
    CLOCK.clock = SimClock()
    private = (np.random.get_state, np.random.set_state)
    fns = [worker(ops, k) for k, ops in enumerate(per)]
    budget = 200000 + 6 * sum(a[1] for a in alone)
    if 'switches' in trace:
        s = CoopSched(fns, switches=trace['switches'], budget=budget, private=private)
    else:
        s = CoopSched(fns, rng=random.Random(trace['s']), rate=trace['rate'], budget=budget, private=private, focus=trace.get('focus'))
    try:
        res = s.run(trace['first'])
    finally:
        ctx.extra = dict(switches=s.taken)
    sw = sum(1 for t in s.taken if t[0] > 0)
    ctx.count('fault:preemption', sw)
    if s.waits:
        ctx.count('fault:lock-contention', s.waits)
    ctx.count('planners:%d' % n)
    ctx.state(trace['ops'], s.taken)
    ids, owner = [], {}
    for k, (a, e) in enumerate(zip(res, alone)):
        ctx.ensure(a[0] == 'ok', 'planner-stuck', lambda: 'planner %d ended with %r' % (k, a[1]))
        got, own, cids = a[1]
        ctx.log(k, [g[0] if g[0] != 'plan' else g[1][:3] for g in got])
        for j, (x, y) in enumerate(zip(got + [None] * len(e[0]), e[0] + [None] * len(got))):
            if x is None and y is None:
                break
            if y is not None and y[0] == 'plan' and sw:
                ctx.nontrivial = True
                ctx.count('switched-in-a-plan')
                if y[2]:
                    ctx.count('warm-plans-compared')
                if y[3]:
                    ctx.count('merged-plans-compared')
            elif y is not None and y[0] == 'region':
                ctx.count('hull-queries-compared')
            elif y is not None and y[0] == 'copied':
                ctx.count('copies-made')
            ctx.ensure(x is not None and y is not None and x[0] == y[0], 'planner-went-another-way',
                       lambda: 'planner %d, step %d: %s, alone: %s' % (k, j, x and x[:1], y and y[:1]))
            ctx.ensure(x == y, 'planner-other-' + y[0], lambda: 'planner %d, step %d: %s, alone: %s' % (k, j, repr(x[1:])[:200], repr(y[1:])[:200]))
        for i in own:
            ctx.ensure(i is not None and i not in owner, 'identifier-twice', lambda: 'identifier %s of planner %d is also with planner %s' % (i, k, owner.get(i)))
            owner[i] = k
        for i in cids:
            if i in own:
                continue
            ctx.ensure(i is not None and i not in owner, 'identifier-twice', lambda: 'identifier %s of a region of planner %d is also with planner %s' % (i, k, owner.get(i)))
            owner[i] = k
