"""C33: a region that has to give up its reference point stays on its side of the line from the robot to the goal."""
import math

import numpy as np
import shapely
import shapely.geometry as sg
import shapely.ops

from .. import geom
from ..bodyworld import rnd
from ..planworld import gen_loop, gen_plan, run_loop

PROP = 'C33'
RUNS = dict(quick=2000, thorough=50000)
RULE = 'a run in which a region could have changed the side of the robot-goal line; distinct by digest of the event and plan log'
PROBES = ['judged', 'moved', 'moved-single', 'moved-common', 'moved-no-common', 'kept', 'side:left', 'side:right', 'fault:stale-plan', 'fault:mangled-plan']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(budget=0, mi=.03, ws=0., ex=0., n=[1, 1, 2, 2, 3, 3, 4, 5], steps=(3, 8), still=.05, rev=.2, lose=.03, sticky=.85, bays=.1,
            prev=['latest'] * 8 + ['reversed', 'reversed', 'subset', None, 0, 1], skip=.06, groups=.15)
CLEAR = .02
AREA = 2e-3


def gen_crossing(rng):
    """long obstacles across the robot's way, alone or on top of each other, which move along it"""
    ops = []
    th = rng.uniform(-math.pi, math.pi)
    u, n = np.array([math.cos(th), math.sin(th)]), np.array([-math.sin(th), math.cos(th)])
    off = rng.uniform(-.5, .5)
    k = rng.choice([1, 1, 2, 2, 2, 3])
    at = []
    fan = rng.random() < .4                                   # no area common to all
    for i in range(k):
        a, b = rng.uniform(1., 2.), rng.uniform(.15, .45)
        rot = th + math.pi / 2 + rng.uniform(-.5, .5)
        c = n * (off + rng.uniform(-.3, .3)) + (u * (i - k / 2) * rng.uniform(.3, .6) if fan else u * rng.uniform(-.1, .1))
        d = dict(op='spawn', id='b%d' % i, xr=None, mm=dict(m='static', pos=[rnd(c[0]), rnd(c[1])], rot=rnd(rot)))
        r = rng.random()
        if r < .6:
            d.update(kind='ellipse', a=[rnd(a), rnd(b)], n_pol=rng.choice([14, 20, 30]))
        elif r < .8:
            d.update(kind='spoly', v=[[rnd(-a), rnd(-b)], [rnd(a), rnd(-b * rng.uniform(.6, 1.))], [rnd(a * .9), rnd(b)], [rnd(-a), rnd(b * .8)]], convex=True)
        else:
            d.update(kind='spoly', v=[[rnd(-a), rnd(-b - .3)], [0., rnd(-b)], [rnd(a), rnd(-b - .3)], [rnd(a * .8), rnd(b)], [rnd(-a * .8), rnd(b)]], c=[0., 0.], convex=False,
                     xr=[0., 0.])
        ops.append(d)
        at.append(c)
    names = [o['id'] for o in ops]
    L = rng.uniform(3., 5.)

    def ends(off):
        t = rng.uniform(-.3, .3)
        m = n * off
        return [[rnd(z[0]), rnd(z[1])] for z in (m - (u + n * t) * L, m + (u + n * t) * L)]
    e = ends(0)
    ops += [dict(op='robot', c=[e[0]]), dict(op='goal', c=[e[1]])]
    sticky = gen_plan(rng, names, 3., PROF)
    for s in range(rng.randrange(3, 8)):
        if s:
            r = rng.random()
            if r < .65:
                z = u * rng.choice([-1, 1]) * rng.uniform(.05, 1.2) + n * rng.uniform(-.5, .5)
                for j, m in enumerate(names):
                    at[j] = at[j] + z
                    ops.append(dict(op='set_pos', id=m, p=[rnd(at[j][0]), rnd(at[j][1])]))
            if r > .5:
                e = ends(rng.uniform(-.4, .4))
                if rng.random() < .25:
                    e.reverse()
                ops += [dict(op='robot', c=[e[0]]), dict(op='goal', c=[e[1]])]
            if rng.random() < .2:
                ops.append(dict(op='set_rot', id=rng.choice(names), r=rnd(th + math.pi / 2 + rng.uniform(-.7, .7))))
        op = gen_plan(rng, names, 3., PROF)
        for q in ('eps', 'mc'):
            op.pop(q, None)
            if q in sticky:
                op[q] = sticky[q]
        ops.append(op)
    return ops


def gen(rng, tier, i):
    if rng.random() < .6:
        return dict(ops=gen_crossing(rng))
    return dict(ops=gen_loop(rng, tier, PROF))


def open_area(p, outs):
    """where a point is admissible for all the obstacles: not behind the robot or the goal seen from any of them. None: not in the domain"""
    box = sg.box(-60, -60, 60, 60)
    for o in outs:
        h = geom.hull(o)
        for x in (p.x, p.xg):
            if h.distance(sg.Point(x)) < 1e-2:
                return None
            v = np.array(h.exterior.coords)[:-1] - x
            r = sg.MultiPoint(x - v / np.linalg.norm(v, axis=1)[:, None] * 400.)
            box = box.difference(geom.hull(sg.Point(x), r))
    return box


def selection(p, m):
    """the area the planner chooses reference points from"""
    common = shapely.intersection_all([p.kernels[n] for n in m])
    if common.area > 1e-3:
        return common, 'common'
    if not shapely.intersection_all([p.kernels[n].buffer(p.sag[n] + 1e-3) for n in m]).is_empty:
        return None, None
    adm = open_area(p, [p.outlines[n] for n in m])
    if adm is None or adm.is_empty:
        return None, None
    s = geom.union([p.outlines[n] for n in m]).intersection(adm)
    return s, 'no-common'


def side(p, q):
    """signed distance from the line"""
    d = p.xg - p.x
    return float(geom.cross(d, np.asarray(q) - p.x) / np.linalg.norm(d))


def parts(geometry):
    return [g for g in getattr(geometry, 'geoms', [geometry]) if g.geom_type == 'Polygon' and g.area > 0]


def judge(w, p, ctx):
    pp = p.prev_plan
    if not p.flag or pp is None or not pp.flag or not p.prev or p.op.get('ws') or p.op.get('ex') or not p.general:
        return
    if np.linalg.norm(p.xg - p.x) < .1:
        return
    fed = {id(c) for c in p.prev}
    old = {tuple(sorted(m)): xr for c, m, xr in zip(pp.clusters, pp.members, pp.xr) if id(c) in fed}
    line = sg.LineString([p.x, p.xg])
    for m, xr, cb in zip(p.members, p.xr, p.comb):
        q = old.get(tuple(sorted(m)))
        if q is None:
            continue
        s0 = side(p, q)
        if abs(s0) < .03:
            continue
        S, why = selection(p, m)
        if S is None or S.is_empty:
            continue
        adm = None
        if why == 'no-common':
            adm = open_area(p, [p.outlines[n].buffer(p.sag[n] + 5e-3) for n in m])
            if adm is None:
                continue
        cut = [g for a in parts(S) for g in parts(shapely.ops.split(a, line))]
        here = [g for g in cut if g.area > AREA and side(p, g.centroid.coords[0]) * s0 > 0]
        there = [g for g in cut if g.area > AREA and side(p, g.centroid.coords[0]) * s0 < 0]
        if not here or not there:
            continue
        if any(abs(side(p, g.centroid.coords[0])) < CLEAR or g.buffer(-5e-3).is_empty for g in here):
            continue
        # all on this side would do, and stay where they are
        if adm is not None and not all(adm.contains(g.centroid) for g in cut if side(p, g.centroid.coords[0]) * s0 > 0):
            continue
        s1 = side(p, xr)
        moved = np.linalg.norm(xr - q) > 1e-6
        ctx.nontrivial = True
        ctx.count('judged')
        ctx.count('side:left' if s0 > 0 else 'side:right')
        ctx.count('kept' if not moved else 'moved')
        if moved:
            ctx.count('moved-single' if len(m) == 1 else 'moved-' + why)
        ctx.log('side', s0 > 0, why, moved)
        ctx.ensure(s1 * (1 if s0 > 0 else -1) > -5e-3, 'changed-side',
                   lambda: 'reference point of %s was %s (%g off the line), now %s (%g), though the area to choose from (%s) lies on both sides' % (m, q, s0, xr, s1, why))


def execute(trace, ctx):
    run_loop(trace, ctx, lambda w, p: judge(w, p, ctx), raising_ok=True)
