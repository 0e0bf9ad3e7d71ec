"""C32: on request, a joined region keeps off the other obstacles when that is possible. An independent model computes from the poses
whether a kernel can be placed so that no member of a cluster hides a corner of another obstacle; the stages a plan went through are judged."""
import math

import numpy as np
import shapely
import shapely.geometry as sg

from ..bodyworld import rnd
from ..planworld import gen_loop, run_loop
from .c29 import members
from .c30 import BOX, fat, shadow

PROP = 'C32'
RUNS = dict(quick=1100, thorough=20000)
RULE = 'a run with a judged joined region that would have been free to reach other obstacles; distinct by digest of the event and plan log'
PROBES = ['kept-off', 'no-room', 'overlapping-only', 'nonconvex-member', 'complete-warm-plan']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(kinds=('ellipse', 'ellipse', 'ellipse', 'spoly', 'star'), mc=0., budget=0., mi=.05, hist=1., ex=1., ws=.05, groups=.05, n=[3, 3, 4, 4, 5, 5, 6], steps=(1, 4), sticky=.9)


def sticks(rng):
    """long and thin ones, so that joining them leaves bays for small ones"""
    n, ops = rng.choice([3, 3, 4]), []
    for i in range(n + rng.choice([1, 2, 2, 3])):
        a = [rnd(rng.uniform(.8, 2.5)), rnd(rng.uniform(.06, .12))] if i < n else [.06, .06]
        r = 1.2 if i < n else 2.
        mm = dict(m='sin', pos=[rnd(rng.uniform(-r, r)), rnd(rng.uniform(-r, r))], rot=rnd(rng.uniform(0, 3)), cart=True,
                  m1=rnd(rng.uniform(-.3, .3)), p1=rng.choice([0, 7.]), m2=rnd(rng.uniform(-.3, .3)), p2=0)
        if i >= n and rng.random() < .5:
            # a spike, one corner of which reaches into a bay
            L, b = rng.uniform(.4, 3.), rng.uniform(.03, .12)
            b = max(b, .011 / L)
            v = [[rnd(L), 0.], [0., rnd(b)], [0., rnd(-b)]]
            mm['pos'] = [rnd(c - L * f(mm['rot']) * rng.choice([0, .5, 1])) for c, f in zip(mm['pos'], (math.cos, math.sin))]
            k = rng.randrange(3)
            ops.append(dict(op='spawn', id='b%d' % i, kind=rng.choice(['poly', 'spoly']), v=v[k:] + v[:k], c=[rnd(L / 3), 0.], convex=True, xr=None, mm=mm))
            continue
        ops.append(dict(op='spawn', id='b%d' % i, kind='ellipse', a=a, n_pol=rng.choice([10, 14, 20]), xr=None, mm=mm))
    return ops


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    if rng.random() < .6:
        ops = sticks(rng) + [o for o in ops if o['op'] != 'spawn' and not o['op'].startswith('set_')]
    for op in ops:
        if op['op'] == 'plan':
            op['ex'] = rng.random() < .95
    return dict(ops=ops)


def judge(w, p, ctx):
    if not p.op.get('ex') or p.n_iter < 2 or not p.general:
        return
    with ctx.judging('joined regions and other obstacles'):
        corners = {n: np.asarray(w.b[n].ob.polygon().exterior.coords)[:-1] for n in p.names}
        pol = {n: fat(p.outlines[n]) for n in p.names}
        done = set()
        for s in range(1, p.n_iter):
            stage = p.history[s]
            for cl, m in zip(stage, members(p, stage)):
                if len(m) < 2 or tuple(m) in done:
                    continue
                done.add(tuple(m))
                r = cl.polygon()
                near = {(n, e): float(np.min(shapely.distance(p.outlines[n], shapely.points(corners[e])))) for n in m for e in p.names if e != n}
                # judged: obstacles clear of every member; room is made for whatever may have to be kept off
                out = [e for e in p.names if e not in m and all(near[n, e] > 5e-3 for n in m)]
                if not out:
                    ctx.count('overlapping-only')
                    continue
                sh = []
                for n in m:
                    pts = [p.x, p.xg]
                    for e in p.names:
                        if e != n and near[n, e] > 0:
                            pts += list(corners[e])
                    for x in pts:
                        if pol[n].distance(sg.Point(x)) < 1e-6:
                            continue        # within the margin: no claim about it
                        z = shadow(pol[n], x)
                        if z is not None:
                            sh.append(z.buffer(0))
                        elif any(x is y for y in (p.x, p.xg)):
                            sh.append(sg.box(-BOX, -BOX, BOX, BOX))
                tight = any(pol[n].distance(sg.Point(x)) < 1e-6 for n in m for e in p.names if e != n and near[n, e] > 0 for x in corners[e])
                if tight:
                    ctx.count('no-claim')
                    continue
                room = sg.box(-BOX, -BOX, BOX, BOX).difference(shapely.union_all(sh)).buffer(-5e-3)
                if room.area < 1e-2:
                    ctx.count('no-room')
                    continue
                for e in out:
                    pts = shapely.points(corners[e])
                    dep = np.where(shapely.contains(r, pts), shapely.distance(r.boundary, pts), 0.)
                    ctx.judged(len(pts))
                    ctx.ensure(dep.max() < 1e-5, 'reaches-over', lambda: 'stage %d: the region of %s contains a corner of %s (%g deep) although a kernel without that has room %g' %
                               (s, m, e, dep.max(), room.area))
                ctx.count('kept-off')
                ctx.nontrivial = True
                if s > 1:
                    ctx.count('late-stage')
                if not all(w.b[n].convex for n in m):
                    ctx.count('nonconvex-member')
                ctx.log('kept-off', s, m, out)


def execute(trace, ctx):
    run_loop(trace, ctx, lambda w, p: judge(w, p, ctx), raising_ok=True)
