"""C19: waypoint motion reaches every waypoint in order and then stops."""
import math

import numpy as np

from ..bodyworld import lib, make_mm, rnd
from ..core import OutOfDomain
from ..seams import CLOCK, SimClock

PROP = 'C19'
RUNS = dict(quick=4000, thorough=70000)
RULE = 'a run in which at least one waypoint is reached; distinct by digest of the event log'
PROBES = ['waypoint', 'arrived', 'rest', 'rest-long', 'extra-velocity-queries']
STATE_MEASURE = 'distinct (waypoint index, number of waypoints, step/tolerance class) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'
SHRINK = ['wps', 'rest']


def gen(rng, tier, i):
    n = rng.randrange(1, 6)
    whole = rng.random() < .3

    def pt():
        return [rng.randrange(-6, 7), rng.randrange(-6, 7)] if whole else [rnd(rng.uniform(-6, 6)), rnd(rng.uniform(-6, 6))]
    pos = pt()
    wps = [pt() for _ in range(n)]
    for k in range(n):
        r = rng.random()
        prev = wps[k - 1] if k else pos
        if r < .12:
            wps[k] = list(prev)                                            # repeated waypoint
        elif r < .25:
            wps[k] = [rnd(prev[0] + rng.uniform(-.3, .3)), rnd(prev[1] + rng.uniform(-.3, .3))]   # within the tolerance or close to it
    th = rnd(rng.uniform(.1, .6)) if rng.random() < .8 else .2             # .2 is the default
    vel = rnd(rng.uniform(.2, 3))
    return dict(pos=pos, wps=wps, th=th, vel=vel, sched=rng.choice(['steady', 'jitter', 'max', 'mixed']), dts=rng.getrandbits(30),
                extra=rng.choice([0., .3, 1.]), carrier=rng.choice(['model', 'ellipse', 'polygon']),
                rest=[rng.choice([0., rnd(rng.uniform(.01, 1)), rnd(rng.uniform(1, 500))]) for _ in range(rng.randrange(1, 8))])


def execute(trace, ctx):
    import random
    CLOCK.clock = SimClock()
    obs, _ = lib()
    if not trace['wps'] or trace['th'] < .02 or trace['vel'] < .05:
        raise OutOfDomain('parameters')
    rng = random.Random(trace['dts'])
    th, vel = trace['th'], trace['vel']
    mm = ctx.call(make_mm, dict(m='wp', pos=trace['pos'], wps=trace['wps'], vel=vel, th=th), what='Waypoints')
    ob = mm
    if trace['carrier'] == 'ellipse':
        ob = ctx.call(obs.Ellipse, [1., .5], motion_model=mm)
    elif trace['carrier'] == 'polygon':
        ob = ctx.call(obs.Polygon, [[0, 0], [1, 0], [0, 1]], motion_model=mm)
    move = (lambda dt: ctx.call(mm.move, None, dt, what='move')) if ob is mm else (lambda dt: ctx.call(ob.move, dt, what='move'))
    pts = np.array([trace['pos']] + trace['wps'], float)
    dmax = th / vel
    path = float(sum(np.linalg.norm(pts[i] - pts[i - 1]) + th for i in range(1, len(pts))))
    bound = path / vel + (len(pts) + 3) * dmax
    t, k = 0., 0
    p = np.array(ctx.call(ob.pos), float)
    with ctx.judging('start'):
        ctx.ensure(np.allclose(p, pts[0], atol=1e-12), 'start', lambda: '%s' % p)
    tick = dmax * rng.uniform(.02, 1)
    tick = max(tick, bound / 3000)
    steps = 0
    while True:
        # waypoints within tolerance count as reached, in order
        while k < len(pts):
            d = float(np.linalg.norm(pts[k] - p))
            if abs(d - th) < 1e-9:
                raise OutOfDomain('distance equals the tolerance')
            if d >= th:
                break
            if k:
                ctx.count('waypoint')
            k += 1
        if k == len(pts):
            break
        ctx.ensure(t <= bound, 'not-reached', lambda: 'waypoint %d of %d not reached at t=%g (path allows %g), at %s' % (k, len(pts) - 1, t, bound, p))
        s = trace['sched']
        dt = tick if s == 'steady' else dmax if s == 'max' else tick * rng.uniform(.3, 1)
        if s == 'mixed':
            dt = rng.choice([0., tick, dmax, dmax * .999, tick * rng.uniform(.3, 1)])
        if rng.random() < trace['extra']:
            ctx.count('extra-velocity-queries')
            for _ in range(rng.randrange(1, 4)):
                ctx.call(mm.lin_vel, what='lin_vel')
        with ctx.judging('motion'):
            v = np.asarray(ctx.call(mm.lin_vel, what='lin_vel'), float) if rng.random() < .5 else None
            move(dt)
            q = np.array(ctx.call(ob.pos), float)
            dr = (pts[k] - p) / np.linalg.norm(pts[k] - p)
            if v is not None:
                ctx.ensure(np.allclose(v, vel * dr, atol=1e-7), 'velocity', lambda: '%s, expected %s towards waypoint %d' % (v, vel * dr, k))
            ctx.ensure(np.allclose(q, p + vel * dt * dr, atol=1e-7), 'step',
                       lambda: 'from %s to %s in %g, expected %s (waypoint %d)' % (p, q, dt, p + vel * dt * dr, k))
            ctx.ensure(float(ob.rot()) == 0, 'rotated', '')
        p = q
        t += dt
        ctx.simtime += dt
        steps += 1
        if dt == 0:
            ctx.count('fault:zero-tick')
        ctx.log(steps, dt, p.tolist())
        ctx.state(k, len(pts), int(4 * dt / dmax))
    ctx.count('arrived')
    for dt in trace['rest']:
        for _ in range(2):
            with ctx.judging('rest'):
                v = np.asarray(ctx.call(mm.lin_vel, what='lin_vel'), float)
                ctx.ensure(v.shape == (2,) and np.all(v == 0), 'moves-at-end', lambda: 'velocity %s at the end' % v)
                move(dt)
                q = np.array(ctx.call(ob.pos), float)
                ctx.ensure(np.array_equal(q, p), 'moves-at-end', lambda: '%s to %s in %g' % (p, q, dt))
        ctx.simtime += 2 * dt
        ctx.count('rest')
        if dt > 1:
            ctx.count('rest-long')
            ctx.count('fault:stalled-tick')
    ctx.nontrivial = True
