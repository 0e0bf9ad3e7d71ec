"""C04: overlapping obstacles with a common area are planned without losing space."""
import itertools

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..planworld import COMPLETE, gen_loop, run_loop

PROP = 'C04'
RUNS = dict(quick=1200, thorough=30000)
RULE = 'a run with a judged plan that merged at least two obstacles; distinct by digest of the event and plan log'
PROBES = ['judged-plan', 'judged-merged', 'judged-warm', 'judged-warm-from-other-grouping', 'judged-excluding', 'judged-workspace']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(groups=.8, kinds=('ellipse', 'spoly', 'star', 'poly'), mc=0, budget=0, mi=0, n=[1, 2, 2, 3, 3, 4], ex=.3, ws=.15, sticky=.5)
APART = .02
COMMON = 5e-3


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    for op in ops:
        if op['op'] == 'plan' and 'ws' in op:
            op['ws'] = dict(a=[200., 150.], pos=[0., 0.])
    if rng.random() < .5:
        # groups that come apart and meet again: some members miss ticks, some are put elsewhere and an incomplete plan is fed back
        for op in ops:
            if op['op'] == 'tick' and rng.random() < .4:
                op['dt'] = round(op['dt'] * 3, 6)
            if op['op'] == 'plan' and rng.random() < .15:
                op['mi'] = 1
    return dict(ops=ops)


def grouping(p):
    """groups of overlapping obstacles, or None if the scene is not in the domain"""
    names = p.names
    out = [p.outlines[n] for n in names]
    slim = [p.kernels[n].buffer(-p.sag[n] - 1e-3) for n in names]
    comp = list(range(len(names)))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i, j in itertools.combinations(range(len(names)), 2):
        if out[i].distance(out[j]) < APART:
            comp[find(i)] = find(j)
    groups = {}
    for i in range(len(names)):
        groups.setdefault(find(i), []).append(i)
    res = []
    for g in groups.values():
        common = shapely.intersection_all([slim[i] for i in g])
        if common.area < COMMON or common.buffer(-.01).is_empty:
            return None
        res.append((sorted(names[i] for i in g), common))
    return res


def judge(w, p, ctx):
    if p.op.get('mc') or p.op.get('mi') is not None or p.budget is not None or not p.general:
        return
    gs = grouping(p)
    if gs is None:
        return
    ctx.count('judged-plan')
    ctx.ensure(p.flag == COMPLETE, 'gave-up', lambda: 'flag %d for groups %s' % (p.flag, [g for g, _ in gs]))
    got = sorted(tuple(sorted(m)) for m in p.members)
    ctx.ensure(got == sorted(tuple(g) for g, _ in gs), 'grouping', lambda: 'clusters %s, groups %s' % (got, [g for g, _ in gs]))
    common = {tuple(g): c for g, c in gs}
    with ctx.judging('regions of groups'):
        for cl, m, r, xr in zip(p.clusters, p.members, p.regions, p.xr):
            u = geom.union([w.b[n].ob.polygon() for n in m])
            extra = r.difference(u.buffer(1e-6)).area
            ctx.ensure(extra < 1e-6, 'space-lost', lambda: 'region of %s adds area %g to its members' % (m, extra))
            wide = geom.union([p.outlines[n].buffer(p.sag[n] + 1e-6) for n in m])
            extra = r.difference(wide).area
            ctx.ensure(extra < 1e-6, 'space-lost', lambda: 'region of %s adds area %g to its members' % (m, extra))
            miss = u.difference(r.buffer(1e-6)).area
            ctx.ensure(miss < 1e-6, 'space-missing', lambda: 'region of %s lacks area %g of its members' % (m, miss))
            for n in m:
                d = p.kernels[n].distance(sg.Point(xr))
                ctx.ensure(d <= p.sag[n] + 1e-6, 'xr-outside-common', lambda: 'reference point %s of %s is off member %s by %g' % (xr, m, n, d))
    if any(len(m) > 1 for m in p.members):
        ctx.nontrivial = True
        ctx.count('judged-merged')
    if p.prev:
        ctx.count('judged-warm')
        if sorted(sorted(str(o.id()) for o in c.obstacles) for c in p.prev) != sorted(sorted(str(w.b[n].ob.id()) for n in m) for m in p.members):
            ctx.count('judged-warm-from-other-grouping')
    if p.op.get('ex'):
        ctx.count('judged-excluding')
    if p.op.get('ws'):
        ctx.count('judged-workspace')


def execute(trace, ctx):
    run_loop(trace, ctx, lambda w, p: judge(w, p, ctx))
