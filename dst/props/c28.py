"""C28: on request every region that can be made convex without claiming the robot, the goal or another region is made convex, and
nothing else about the plan changes."""
import itertools
import math

import numpy as np
import shapely.geometry as sg

from .. import geom
from ..bodyworld import rnd
from ..planworld import COMPLETE, branch, gen_loop, run_loop

PROP = 'C28'
RUNS = dict(quick=900, thorough=22000)
RULE = 'a run with at least one region judged that was not convex before; distinct by digest of the event and plan log'
PROBES = ['made-convex', 'kept:robot-or-goal', 'kept:other-region', 'kept:out-of-time', 'already-convex', 'complete-warm-plan']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(bays=.3, mc=1., budget=.1, mi=.02, n=[1, 2, 3, 3, 4, 4, 5, 5, 6, 7], sticky=.5)
GAP = 1e-5


def facing(rng):
    """open corners that reach towards and into one another: the hull of one may meet what was added to another"""
    ops = []
    n = rng.choice([2, 2, 3])
    t0 = rng.uniform(0, 6.28)
    for k in range(n):
        t = t0 + 6.2832 * k / n + rng.uniform(-.5, .5)
        D = rng.uniform(.3, 1.6)
        at = np.array([math.cos(t), math.sin(t)]) * D
        look = t + math.pi + rng.uniform(-.6, .6)
        op = rng.uniform(.3, 1.1)
        vel = [rnd(rng.uniform(-.2, .2)), rnd(rng.uniform(-.2, .2)), rng.choice([0, 7., 15.]), 0]
        for s in (1, -1):
            L = rng.uniform(.5, 1.4)
            c = at + np.array([math.cos(look + s * op), math.sin(look + s * op)]) * L * rng.uniform(.8, .95)
            ops.append(dict(op='spawn', id='b%d' % len(ops), kind='ellipse', a=[rnd(L), rnd(rng.uniform(.06, .12))], n_pol=rng.choice([14, 20]), xr=None,
                            mm=dict(m='sin', pos=[rnd(c[0]), rnd(c[1])], rot=rnd(look + s * op), cart=True, m1=vel[0], p1=vel[2], m2=vel[1], p2=vel[3])))
    return ops


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    if rng.random() < .25:
        ops = facing(rng) + [o for o in ops if o['op'] not in ('spawn', 'swap') and not o['op'].startswith('set_')]
    for op in ops:
        if op['op'] == 'plan':
            op['mc'] = True
            if rng.random() < .12:
                op['budget'] = 1e6
                op['clock'] = dict(rate=1e-8, jumps=[['s', int(10 ** rng.uniform(3, 4.4)), 1e7]])
    return dict(ops=ops)


def execute(trace, ctx):
    plain = {}

    def before(w, op):
        o = dict(op, clock={}, hist=False, vb=False, tv=False)
        for a in ('mc', 'budget'):
            o.pop(a, None)

        def f():
            p = w.plan(o)
            return dict(flag=p.flag, members=p.members, regions=p.regions, xr=p.xr, kp=p.kp, cid=p.cid, comb=p.comb)
        plain['r'] = branch(f)

    def after(w, p):
        r = plain['r']
        if r[0] != 'ok' or not p.flag or not r[1]['flag']:
            return
        q = r[1]
        by = {tuple(sorted(m)): i for i, m in enumerate(q['members'])}
        ctx.ensure(sorted(by) == sorted(tuple(sorted(m)) for m in p.members), 'other-clusters', lambda: 'clusters %s, without making convex %s' % (p.members, q['members']))
        hulls = [geom.hull(x) for x in p.regions]
        with ctx.judging('convex regions'):
            for j, (cl, m, x) in enumerate(zip(p.clusters, p.members, p.regions)):
                i = by[tuple(sorted(m))]
                x0 = q['regions'][i]
                ctx.ensure(np.linalg.norm(p.xr[j] - q['xr'][i]) < 1e-9 and np.array_equal(p.kp[j], q['kp'][i]), 'kernel-changed',
                           lambda: 'reference point of %s is %s, without making convex %s' % (m, p.xr[j], q['xr'][i]))
                if x0.geom_type != 'Polygon':
                    continue
                d = x.symmetric_difference(x0).area
                dh = x.symmetric_difference(geom.hull(x0)).area
                size = 1e-9 * (1 + x0.area)
                ctx.ensure(d < size or dh < size, 'neither-region-nor-hull', lambda: 'region of %s differs by area %g from the region and %g from its hull' % (m, d, dh))
                if geom.hull(x0).area - x0.area < 1e-3:
                    ctx.count('already-convex')
                    continue
                ctx.nontrivial = True
                if dh < size:
                    ctx.count('made-convex')
                    for what, z in (('robot', p.x), ('goal', p.xg)):
                        ctx.ensure(not p.general or not x.contains(sg.Point(z)) or x.boundary.distance(sg.Point(z)) < 1e-6, 'convexified-over-' + what,
                                   lambda: 'the region of %s was made convex although %s %s is in its hull' % (m, what, z))
                    ctx.ensure(bool(cl.cluster_obstacle.is_convex()), 'convexity', lambda: 'the convex region of %s says it is not convex' % m)
                    verdict = 'hull'
                elif p.flag != COMPLETE:
                    ctx.count('kept:out-of-time')
                    verdict = 'late'
                else:
                    h = hulls[j].buffer(GAP)
                    pts = [z for z in (p.x, p.xg) if h.contains(sg.Point(z))]
                    oth = [p.members[k] for k in range(len(p.regions)) if k != j and h.intersects(p.regions[k])]
                    ctx.ensure(pts or oth, 'not-made-convex', lambda: 'region of %s was left nonconvex although its hull is free' % m)
                    verdict = 'robot-or-goal' if pts else 'other-region'
                    ctx.count('kept:' + verdict)
                ctx.log('convex', tuple(m), verdict)
        for (a, ra), (b, rb) in itertools.combinations(list(zip(p.members, p.regions)), 2):
            ctx.ensure(not ra.intersects(rb) or ra.intersection(rb).area < 1e-8, 'regions-overlap', lambda: 'regions of %s and %s overlap' % (a, b))
    run_loop(trace, ctx, after, before_plan=before, raising_ok=True)
