"""C34: a region moves where its obstacles move. A follower asks every combined region for the velocity at its boundary right after planning."""
import numpy as np
import shapely.geometry as sg

from ..bodyworld import rnd
from ..planworld import gen_loop, run_loop
from ..regions import combined
from .c23 import Region

PROP = 'C34'
RUNS = dict(quick=1500, thorough=30000)
RULE = 'a run in which the velocity at the boundary of a combined region was judged; distinct by digest of the event, plan and answer log'
PROBES = ['judged', 'first-member', 'other-member', 'with-hull', 'ellipse', 'polygon', 'turning', 'at-rest', 'moving-differently', 'farther-out']
STATE_MEASURE = 'distinct (members, index of the bounding member, its kind, motion) tuples and plan outcomes'
SHRINK_IN = ('q',)
PROF = dict(budget=.02, mi=.02, mc=.05, ws=.1, ex=.1, lose=.03, steps=(1, 6), n=[2, 3, 3, 4, 4, 5, 5, 6, 7])


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    for op in ops:
        if op['op'] == 'plan':
            op['q'] = [dict(u=rnd(rng.random()), s=rnd(1 + (10 ** rng.uniform(-2, 1) if rng.random() < .4 else 0.))) for _ in range(rng.randrange(3, 16))]
        elif op['op'] == 'spawn' and op['mm'] and op['mm']['m'] == 'static' and rng.random() < .6:
            # motion that turns obstacles as they go
            op['mm'] = dict(m='sin', pos=op['mm']['pos'], rot=op['mm']['rot'], cart=rng.random() < .3, m1=rnd(rng.uniform(-1, 1)), p1=rng.choice([0, rnd(rng.uniform(1, 20))]),
                            m2=rnd(rng.uniform(-1, 1)), p2=rng.choice([0, rnd(rng.uniform(1, 20))]))
    return dict(ops=ops)


def velocity(b, x):
    """of the point x of the body, from its pose and the velocity its motion model reports"""
    if b.mm is None:
        return np.zeros(2), 0.
    v, o = np.asarray(b.mm.lin_vel(), float), float(b.mm.rot_vel())
    d = x - np.array(b.pose()[:2])
    return v + o * np.array([-d[1], d[0]]), o


def execute(trace, ctx):
    def after(w, p):
        if not p.flag:
            return
        for i, cb in enumerate(p.comb):
            if not cb or p.regions[i].geom_type != 'Polygon' or not combined(p.clusters[i].cluster_obstacle):
                continue
            with ctx.judging('region'):
                R = Region(w, p, i)
            if not all(b.star for b in R.b):
                continue
            for q in p.op.get('q', []):
                with ctx.judging('bounding member'):
                    e = R.outer_piece(R.point(q))
                    if e is None or e[0] == 'hull':
                        continue
                    x = R.xr + q['s'] * (e[2] - R.xr)
                    k = [j for j, g in enumerate(R.pieces) if g.boundary.distance(sg.Point(e[2])) < 2 * R.sag + 1e-6]
                    if len(k) != 1:
                        continue
                    k = k[0]
                    want, turn = velocity(R.b[k], x)
                    others = [velocity(b, x)[0] for j, b in enumerate(R.b) if j != k]
                got = ctx.call(R.ob.vel_intertial_frame, x.copy(), what='vel_intertial_frame')
                with ctx.judging('velocity'):
                    g = np.asarray(got, float)
                    ctx.ensure(g.shape == (2,), 'velocity', lambda: '%s' % (got,))
                    ctx.ensure(np.allclose(g, want, atol=1e-7 * (1 + np.abs(x).max())), 'velocity',
                               lambda: 'region of %s (reference point %s) at %s is bounded by %s which moves with %s there; reported %s' % (R.m, R.xr, x, R.m[k], want, g))
                ctx.nontrivial = True
                ctx.count('judged')
                ctx.count('first-member' if k == 0 else 'other-member')
                ctx.count(e[0])
                if R.hull is not None:
                    ctx.count('with-hull')
                if turn:
                    ctx.count('turning')
                if not np.any(want):
                    ctx.count('at-rest')
                if any(np.linalg.norm(o - want) > 1e-3 for o in others):
                    ctx.count('moving-differently')
                if q['s'] > 1.01:
                    ctx.count('farther-out')
                ctx.state(len(R.m), k, e[0], bool(turn), bool(np.any(want)))
                ctx.log('vel', i, k, [float(z) for z in g])
    run_loop(trace, ctx, after, raising_ok=True)
