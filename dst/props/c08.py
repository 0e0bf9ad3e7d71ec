"""C08: a cluster of the same obstacles keeps its identifier, and its reference point while that is still admissible."""
import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..planworld import gen_loop, run_loop

PROP = 'C08'
RUNS = dict(quick=1100, thorough=28000)
RULE = 'a run in which a combined region was replanned from a plan that had it already; distinct by digest of the event and plan log'
PROBES = ['kept-id', 'kept-id-other-order', 'kept-id-convexified', 'must-keep-xr', 'must-keep-xr-moved', 'must-keep-xr-no-common', 'stutter']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(budget=0, mi=.03, ws=.08, ex=.08, n=[2, 3, 3, 4, 4, 5, 5, 6, 7], steps=(3, 9), still=.35, rev=.2, lose=.03, sticky=.85,
            prev=['latest'] * 8 + ['reversed', 'reversed', 'subset', None, 0, 1], skip=.06, groups=.2, nid=.5)
INSIDE = 4e-3


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    for op in ops:
        if op['op'] == 'tick' and rng.random() < .5:
            op['dt'] = round(op['dt'] * .2, 6)
    return dict(ops=ops)


def admissible(q, xs, outs):
    """q stays admissible when moved a little: none of xs gets into the hull of an obstacle and q"""
    for o in outs:
        h = geom.hull(o, sg.Point(q).buffer(INSIDE * 2, quad_segs=4)).buffer(INSIDE)
        for x in xs:
            if h.contains(sg.Point(x)):
                return False
    return True


def must_keep(w, p, m, q):
    """the previous reference point q is surely in the set the planner chooses from"""
    if p.op.get('ws') or p.op.get('ex') or not p.general:
        return None
    d = p.xg - p.x
    L = np.linalg.norm(d)
    if L < .1:
        return None
    if abs(d[0] * (q[1] - p.x[1]) - d[1] * (q[0] - p.x[0])) / L < .05:
        return None
    fat = [p.outlines[n].buffer(p.sag[n] + 1e-3) for n in m]
    slim = [p.outlines[n].buffer(-p.sag[n] - INSIDE) for n in m]
    pt = sg.Point(q)
    common = shapely.intersection_all([p.kernels[n].buffer(-p.sag[n] - INSIDE) for n in m])
    if common.area > 1e-2:
        return 'common' if common.contains(pt) else None
    if not shapely.intersection_all([p.kernels[n].buffer(p.sag[n] + 1e-3) for n in m]).is_empty:
        return None
    # no common area: anywhere in the members that is admissible for all of them
    if not any(s.contains(pt) for s in slim) or not admissible(q, (p.x, p.xg), fat):
        return None
    return 'no-common'


def judge(w, p, ctx, last):
    pp = p.prev_plan
    if not p.flag or pp is None or not pp.flag or not p.prev:
        return
    fed = {id(c) for c in p.prev}
    old = {}
    for c, m, cb, xr, cid, r in zip(pp.clusters, pp.members, pp.comb, pp.xr, pp.cid, pp.regions):
        if id(c) in fed and cb:
            old[tuple(sorted(m))] = (m, xr, cid, r, type(c.cluster_obstacle).__name__)
    same = sorted(tuple(sorted(m)) for m in p.members) == sorted(tuple(sorted(m)) for m in pp.members)
    still = last.get('still')
    for c, m, cb, xr, cid, r in zip(p.clusters, p.members, p.comb, p.xr, p.cid, p.regions):
        k = tuple(sorted(m))
        if not cb or k not in old:
            continue
        m0, xr0, cid0, r0, kind0 = old[k]
        ctx.nontrivial = True
        ctx.count('kept-id')
        if m0 != m:
            ctx.count('kept-id-other-order')
        if 'Combination' not in kind0:
            ctx.count('kept-id-convexified')
        ctx.ensure(cid == cid0, 'identifier', lambda: 'cluster of %s had identifier %s, now %s' % (m, cid0, cid))
        why = must_keep(w, p, m, xr0)
        moved = np.linalg.norm(xr - xr0)
        ctx.log('kept', why, moved < 1e-6)
        if why:
            ctx.count('must-keep-xr' if why == 'common' else 'must-keep-xr-no-common')
            if not still:
                ctx.count('must-keep-xr-moved')
            ctx.ensure(moved < 1e-6, 'reference-point', lambda: 'reference point of %s moved from %s to %s although still admissible (%s)' % (m, xr0, xr, why))
            if still and same and bool(p.op.get('mc')) == bool(pp.op.get('mc')) and p.op.get('eps') == pp.op.get('eps') and p.flag == pp.flag \
                    and not pp.op.get('ws') and not pp.op.get('ex'):
                ctx.count('stutter')
                h = max(r.difference(r0.buffer(1e-5)).area, r0.difference(r.buffer(1e-5)).area)      # slits without area come and go
                if not p.op.get('mc'):
                    ctx.ensure(h < 1e-7, 'stutter', lambda: 'region of %s changed by area %g though nothing did' % (m, h))


def execute(trace, ctx):
    last = {}

    def after(w, p):
        st = (p.x.tobytes(), p.xg.tobytes(), tuple((n, w.b[n].pose(), id(w.b[n])) for n in sorted(p.names)))
        last['still'] = last.get('state') == st and last.get('plan') is p.prev_plan
        judge(w, p, ctx, last)
        last['state'], last['plan'] = st, p
    run_loop(trace, ctx, after, raising_ok=True)
