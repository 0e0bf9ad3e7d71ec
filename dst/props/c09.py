"""C09: planning leaves the caller's world as it was. Digests of the whole world around every plan, and a twin of the whole
history in which no plan is ever made."""
import numpy as np
import shapely.geometry as sg

from ..bodyworld import frame
from ..core import LibRaised
from ..planworld import PlanWorld, branch, count_faults, gen_loop
from ..seams import CLOCK, SimClock

PROP = 'C09'
RUNS = dict(quick=550, thorough=14000)
RULE = 'a run with at least one plan and a motion tick after it; distinct by digest of the event and plan log'
PROBES = ['flag:0', 'flag:1', 'flag:2', 'complete-warm-plan', 'plan-with-merged-cluster', 'ticks-after-plan', 'workspace-kept', 'recentred']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(spawn=0, budget=.12, mi=.12, ws=.3, ex=.2, mc=.35, steps=(2, 7), n=[1, 2, 3, 3, 4, 4, 5, 5, 6], hist=.2)


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    for op in ops:
        if op['op'] == 'plan' and op.get('mc') and rng.random() < .25:
            # time runs out while the clusters are made convex
            op['budget'] = 1e6
            op['clock'] = dict(rate=1e-8, jumps=[['s', int(10 ** rng.uniform(3, 4.4)), 1e7]])
    ops += [dict(op='tick', dt=round(rng.uniform(.05, 1.), 6)) for _ in range(rng.randrange(1, 4))]
    return dict(ops=ops)


def arr(x):
    return np.asarray(x, float).tobytes()


def body_state(b):
    ob = b.ob
    d = dict(pos=arr(ob.pos()), rot=float(ob.rot()), id=ob.id(), name=str(ob))
    d['polygon'] = (ob.polygon(frame('g')).wkb, ob.polygon(frame('o')).wkb)
    d['convex'] = (bool(ob.is_convex()), bool(ob.is_starshaped()))
    if b.star:
        d['kernel'] = (ob.kernel(frame('g')).wkb, ob.kernel(frame('o')).wkb)
    if b.mm is not None:
        d['velocity'] = (arr(b.mm.lin_vel()), float(b.mm.rot_vel()))
        d['pose of motion'] = (arr(b.mm.pos()), float(b.mm.rot()))
    return d


def cluster_state(c, raw):
    d = dict(name=str(c), members=[id(o) for o in c.obstacles], kernel_points=None if c.kernel_points is None else arr(c.kernel_points),
             admissible=None if c.admissible_kernel is None or not hasattr(c.admissible_kernel, 'wkb') else c.admissible_kernel.wkb,
             obstacle=id(c.cluster_obstacle) if c.cluster_obstacle is not None else None)
    o = c.cluster_obstacle
    if o is not None and id(o) not in raw:
        # the region the cluster had, by its own outline; its members may move on
        d.update(id=o.id(), xr=arr(o.xr()), region=o.polygon().wkb)
    return d


def world_state(w, p_obs, ws, prev):
    raw = {id(b.ob) for b in list(w.b.values()) + w.gone}
    return dict(bodies={n: body_state(b) for n, b in w.b.items()}, robot=arr(w.x), goal=arr(w.xg),
                workspace=None if ws is None else (ws.polygon().wkb, ws.id(), arr(ws.pos()), arr(ws.xr()), float(ws.rot())),
                previous=None if prev is None else [cluster_state(c, raw) for c in prev])


def diff(a, b, path=''):
    if isinstance(a, dict):
        for k in a:
            d = diff(a[k], b.get(k), path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + '/%d' % i)
            if d:
                return d
        return None
    return None if a == b else path


def simulate(trace, ctx, plans):
    CLOCK.clock = SimClock()
    w = PlanWorld(ctx, keep=True)
    log = []
    made = False
    for op in trace['ops']:
        if op['op'] == 'plan':
            if not plans:
                for q in ('x', 'xg'):
                    if not w.general(getattr(w, q)) and op.get('rc'):
                        w.place(op['rc'], q)
                continue
            count_faults(ctx, op)
            ws = w.workspace(op.get('ws'))
            prev = w.previous(op.get('prev'))
            prev_list = None if prev is None else list(prev)
            for q in ('x', 'xg'):
                if not w.general(getattr(w, q)) and op.get('rc'):
                    w.place(op['rc'], q)
            xr0 = {n: np.asarray(b.ob.xr(frame('o')), float).copy() for n, b in w.b.items() if b.star}
            a = branch(lambda: world_state(w, None, ws, prev))
            if a[0] != 'ok':
                ctx.count('state-not-readable')
                return log, False
            a = a[1]
            try:
                p = w.plan(op)
            except LibRaised as e:
                if e.where.startswith('cluster_and_starify'):       # judged by C05 and C07
                    ctx.count('planner-raised')
                    return log, False
                raise
            b = branch(lambda: world_state(w, None, ws, prev))
            ctx.judged()
            if b[0] != 'ok':
                ctx.viol('world-unreadable', 'after the plan: %s' % (b[1:],))
            d = diff(a, b[1])
            ctx.ensure(d is None, 'world-changed', lambda: 'plan (flag %d) changed %s' % (p.flag, d))
            ctx.ensure(len(p.obs_arg) == len(p.obstacles) and all(x is y for x, y in zip(p.obs_arg, p.obstacles)), 'obstacle-list-changed',
                       'the list of obstacles handed in was modified')
            ctx.ensure(prev is None or (len(prev) == len(prev_list) and all(x is y for x, y in zip(prev, prev_list))), 'previous-list-changed',
                       'the list of previous clusters handed in was modified')
            w.keep.check(ctx)
            if ws is not None:
                ctx.count('workspace-kept')
            for n, bd in w.b.items():
                if not bd.star:
                    continue
                q = np.asarray(bd.ob.xr(frame('o')), float)
                if not np.array_equal(q, xr0[n]):
                    ctx.count('recentred')
                    ctx.ensure(n in p.names, 'foreign-obstacle-changed', lambda: 'reference point of %s, not part of the plan' % n)
                    s = bd.shape.side(q)
                    ctx.ensure(s < 1e-6 + (1e-3 if bd.kind == 'ellipse' else 0), 'xr-outside', lambda: 'reference point %s of %s is outside by %g' % (q, n, s))
            made = True
        else:
            moved = w.event(op)
            if plans and moved:
                count_faults(ctx, op)
                if op['op'] == 'tick' and made:
                    ctx.count('ticks-after-plan')
                    ctx.nontrivial = True
        log.append((op['op'], [(n, arr(b.ob.pos()), float(b.ob.rot()), b.ob.id()) for n, b in w.b.items()]))
    end = branch(lambda: {n: body_state(b) for n, b in w.b.items()})
    log.append(('end', end[1] if end[0] == 'ok' else None))
    return log, True


def execute(trace, ctx):
    bare = branch(lambda: [x for x in simulate(trace, ctx, False)[0] if x[0] != 'plan'])
    log, whole = simulate(trace, ctx, True)
    if bare[0] != 'ok' or not whole:
        return
    log = [x for x in log if x[0] != 'plan']
    ctx.ensure(len(log) == len(bare[1]), 'different-history', 'with and without plans')
    for j, (x, y) in enumerate(zip(bare[1], log)):
        ctx.judged()
        if x[1] != y[1]:
            d = diff(x[1], y[1]) if isinstance(x[1], dict) else [n for n, u, v in zip([q[0] for q in x[1]], x[1], y[1]) if u != v]
            ctx.viol('motion-differs', 'after event %d (%s) the world differs from one without plans: %s' % (j, x[0], d))
