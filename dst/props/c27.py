"""C27: the regions of a complete plan are the smallest sets their kernels allow. An independent model builds, from the poses of the
obstacles and the kernel points of the plan, the smallest set that contains the members and is starshaped about every kernel point."""
import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..regions import combined
from ..planworld import gen_loop, run_loop

PROP = 'C27'
RUNS = dict(quick=1100, thorough=26000)
RULE = 'a run with at least one judged region that extends its members; distinct by digest of the event and plan log'
PROBES = ['extended', 'merged', 'extended-nonconvex', 'unstarshaped-member', 'own-region', 'convexified', 'not-convexified', 'complete-warm-plan']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(mc=.3, budget=.02, mi=.02)
FAR = 1e4


def gen(rng, tier, i):
    return dict(ops=gen_loop(rng, tier, PROF))


def hull_of(*g):
    return geom.hull(*g)


def around(o, kp):
    """pieces of the smallest set containing polygon o that is starshaped about all of kp"""
    c = np.asarray(o.exterior.coords)
    return [o] + [hull_of(c[i:i + 2], kp) for i in range(len(c) - 1)]


def judge(w, p, ctx):
    for cl, m, r, cb, kp in zip(p.clusters, p.members, p.regions, p.comb, p.kp):
        with ctx.judging('size of regions'):
            if r is None or kp is None or np.abs(kp).max() > FAR:
                continue
            sag = max(p.sag[n] for n in m)
            tol = sag + 1e-3
            if not cb:
                ctx.count('own-region')
            need = []
            for n in m:
                b = w.b[n]
                lib = b.ob.polygon()
                if not b.star:
                    ctx.count('unstarshaped-member')
                if b.convex:
                    # nothing is added to a convex obstacle that has the kernel points inside; ellipses and their polygons differ a little
                    inside = all(b.shape.side(geom.to_local(k, b.pose())) < -1e-3 for k in kp)
                    need += [lib] if inside else [hull_of(np.asarray(p.outlines[n].exterior.coords), np.asarray(lib.exterior.coords), kp)]
                else:
                    need += around(lib, kp)
            E = geom.union([g for g in need if g.geom_type == 'Polygon'])
            convexified = cb and not combined(cl.cluster_obstacle)
            bulk = geom.union([p.outlines[n] for n in m])
            if convexified:
                ctx.count('convexified')
                E = geom.hull(E)
            elif p.op.get('mc') and geom.hull(r).area - r.area > 1e-3:
                ctx.count('not-convexified')
            extra = r.difference(E.buffer(1.2e-3)).area
            ctx.ensure(extra < 1e-6, 'too-large', lambda: 'region of %s with kernel %s exceeds what the kernel requires by area %g' % (m, kp.tolist(), extra))
            slim = geom.union([o.buffer(-sag - 1e-3) for o in (p.outlines[n] for n in m)])
            miss = 0.
            if all(slim.covers(sg.Point(k)) for k in kp) or any(not bulk.buffer(tol).covers(sg.Point(k)) for k in kp):
                # kernel points well inside or outside the members: nothing of the required set may be missing either
                miss = E.difference(r.buffer(tol)).area
                ctx.ensure(miss < 1e-6, 'too-small', lambda: 'region of %s lacks area %g of what the kernel %s requires' % (m, miss, kp.tolist()))
            if r.area - bulk.area > 1e-3 and not convexified:
                ctx.nontrivial = True
                ctx.count('extended')
                if len(m) > 1:
                    ctx.count('merged')
                if any(not w.b[n].convex for n in m):
                    ctx.count('extended-nonconvex')
            ctx.log('size', tuple(m), round(r.area, 6), round(E.area, 6))


def execute(trace, ctx):
    run_loop(trace, ctx, lambda w, p: judge(w, p, ctx) if p.flag else None, raising_ok=True)
