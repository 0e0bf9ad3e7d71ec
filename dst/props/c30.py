"""C30: a plan is given up only for a reason, and never completed against one. An independent model computes, from the poses alone,
where a kernel may be placed so that no member of a group hides the robot or the goal."""
import math

import numpy as np
import shapely.geometry as sg

from .. import geom
from ..bodyworld import rnd
from ..planworld import PlanWorld, gen_loop, run_loop
from .c29 import members

PROP = 'C30'
RUNS = dict(quick=1300, thorough=30000)
RULE = 'a run with a plan that was given up for a judged reason; distinct by digest of the event and plan log'
PROBES = ['given-up:robot-or-goal-inside', 'given-up:walled-in', 'given-up:single', 'given-up:group', 'completed', 'completed:robot-in-bay', 'complete-warm-plan']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(spawn=0, swap=.2, mc=.2, ex=.4, budget=0., mi=0., hist=1., n=[1, 1, 2, 2, 3, 3, 4, 5, 6, 7], steps=(2, 6))
BOX, FAR = 100., 1000.


def poly(rng, name, v, c=(0., 0.)):
    t = rng.uniform(0, 2 * math.pi)
    if rng.random() < .5:
        v = v[::-1]
    return dict(op='spawn', id=name, kind='poly', v=[[rnd(z) for z in geom.R(t) @ np.array(q)] for q in v], c=None, convex=False,
                mm=dict(m='sin', pos=[rnd(c[0]), rnd(c[1])], rot=0., cart=True, m1=rnd(rng.uniform(-.2, .2)), p1=rng.choice([0, 7.]), m2=rnd(rng.uniform(-.2, .2)), p2=0))


def ring(rng):
    """obstacles around a place, with or without a way out"""
    n, r, gap = rng.randrange(4, 9), rng.uniform(1.2, 2.5), rng.choice([0., 0., rng.uniform(0, 2.5), rng.uniform(0, 4)])
    ops = []
    for i in range(n):
        t = (2 * math.pi - gap) * i / n
        s = math.pi * r / n * rng.uniform(.8, 1.3)
        ops.append(dict(op='spawn', id='b%d' % i, kind='ellipse', a=[rnd(s), rnd(min(s, rng.uniform(.2, .5)))], n_pol=20, xr=None,
                        mm=dict(m='sin', pos=[rnd(r * math.cos(t)), rnd(r * math.sin(t))], rot=rnd(t + math.pi / 2), cart=True,
                                m1=rnd(rng.uniform(-.2, .2)), p1=rng.choice([0, 7.]), m2=rnd(rng.uniform(-.2, .2)), p2=0)))
    return ops


def gen(rng, tier, i):
    prof = dict(PROF, kinds=('poly', 'poly', 'poly', 'star', 'ellipse', 'spoly')) if rng.random() < .5 else PROF
    ops = gen_loop(rng, tier, prof)
    r = rng.random()
    scene = None
    if r < .15:
        scene = ring(rng)
    elif r < .4:
        scene = [poly(rng, 'b0', geom.two_pockets(rng) if rng.random() < .6 else geom.spiral(rng))]
        if rng.random() < .5:
            scene += [dict(o) for o in ops if o['op'] == 'spawn' and o['id'] != 'b0'][:rng.randrange(1, 3)]
    if scene:
        ops = scene + [o for o in ops if o['op'] != 'spawn' and not (o['op'].startswith('set_') and o['id'] not in [z['id'] for z in scene])]
    names = [o['id'] for o in ops if o['op'] == 'spawn']
    bays = [o['id'] for o in ops if o['op'] == 'spawn' and not o.get('convex', o['kind'] == 'ellipse')]
    same = rng.choice(bays) if bays else None
    for op in ops:
        if op['op'] in ('robot', 'goal'):
            if bays and rng.random() < .75:
                op['c'] = [dict(pocket=same if rng.random() < .7 else rng.choice(bays), k=rng.randrange(4), uv=[[rnd(rng.random()), rnd(rng.random())] for _ in range(6)])] + op['c']
            elif scene and len(names) > 3 and rng.random() < .7:
                op['c'] = [[rnd(rng.uniform(-.8, .8)), rnd(rng.uniform(-.8, .8))]] + op['c']
    out = []
    for op in ops:
        if op['op'] == 'plan' and rng.random() < .15 and names:
            out.append(dict(op='inside', id=rng.choice(names), w=rng.choice(['x', 'xg']), f=rnd(rng.uniform(0, 1))))
        if op['op'] == 'plan' and rng.random() < .3:
            op.pop('rc')
        out.append(op)
    return dict(ops=out)


class Intruding(PlanWorld):
    """the robot or the goal may end up inside an obstacle"""

    def event(self, op):
        if op['op'] != 'inside':
            return super().event(op)
        b = self.b.get(op['id'])
        if b is None:
            return False
        o = sg.Polygon(b.shape.poly())
        c = np.array(o.representative_point().coords[0])
        q = (1 - op['f']) * c + op['f'] * b.shape.boundary(op['f'])
        setattr(self, op['w'], geom.to_global(q, b.pose()))
        self.ctx.count('fault:collision')
        return True


def blocked(o, x):
    """interval of directions from x that hit the connected set o"""
    c = np.asarray(o.exterior.coords) - x
    t = np.unwrap(np.arctan2(c[:, 1], c[:, 0]))
    return t.min(), t.max()


def shadow(o, x):
    """the points k such that x is between k and some point of o; None if that is everywhere"""
    lo, hi = blocked(o, x)
    if hi - lo >= 2 * math.pi - 1e-6:
        return None
    a = np.linspace(lo, hi, 3 + int((hi - lo) / .2)) + math.pi
    return sg.Polygon(np.vstack((x[None], x + FAR * np.stack((np.cos(a), np.sin(a)), 1))))


def admissible(outlines, pts):
    """part of the plane that no shadow reaches"""
    free = sg.box(-BOX, -BOX, BOX, BOX)
    for o in outlines:
        for x in pts:
            s = shadow(o, x)
            if s is None:
                return sg.Polygon()
            free = free.difference(s.buffer(0))
    return free


def fat(g):
    g = g.buffer(3e-3)
    return sg.Polygon(g.exterior)


def judge(w, p, ctx):
    pts = [p.x, p.xg]
    with ctx.judging('whether the plan had to be given up'):
        inside = [(n, min(w.b[n].shape.side(geom.to_local(q, w.b[n].pose())) for q in pts)) for n in p.names]
        deep = [n for n, s in inside if s < -5e-3 - p.sag[n]]
        if p.flag:
            ctx.ensure(not deep, 'completed-inside', lambda: 'robot or goal is inside %s, but the plan claims to be complete' % deep)
            ctx.count('completed')
            if p.general:
                for m in p.members:
                    thin = [p.outlines[n].buffer(-5e-3 - p.sag[n]) for n in m]
                    thin = [t for t in thin if t.geom_type == 'Polygon' and not t.is_empty]
                    if any(geom.hull(p.outlines[n]).contains(sg.Point(q)) for n in m for q in pts):
                        ctx.count('completed:robot-in-bay')
                    ctx.ensure(not admissible(thin, pts).is_empty, 'completed-without-kernel', lambda: 'there is no place for a kernel of %s' % m)
            return
        if deep:
            ctx.nontrivial = True
            ctx.count('given-up:robot-or-goal-inside')
            return
        if not p.general:
            return
        stuck = [[n] for n in p.names] if p.n_iter == 0 else members(p, p.history[-1])
        rooms = []
        for m in stuck:
            a = admissible([fat(p.outlines[n]) for n in m], pts).buffer(-5e-3)
            rooms.append(a.area)
        ctx.ensure(min(rooms) < 1e-3, 'given-up-without-reason', lambda: 'given up after %d iterations although every cluster has room for a kernel: %s' %
                   (p.n_iter, [(m, round(r, 4)) for m, r in zip(stuck, rooms)]))
        ctx.nontrivial = True
        walled = p.n_iter == 0 and any(np.ptp(blocked(fat(p.outlines[n]), q)) >= 2 * math.pi - 1e-6 for n in p.names for q in pts)
        why = 'walled-in' if walled else 'single' if p.n_iter == 0 else 'group'
        ctx.count('given-up:' + why)
        ctx.log('reason', why, [m for m, r in zip(stuck, rooms) if r < 1e-3])


def execute(trace, ctx):
    run_loop(trace, ctx, lambda w, p: judge(w, p, ctx), world=Intruding(ctx))
