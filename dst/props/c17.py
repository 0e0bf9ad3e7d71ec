"""C17: motion is the integration of the reported velocity under any tick schedule."""
import copy

import numpy as np

from ..bodyworld import World, gen_history, gen_mm, gen_point, gen_spawn, make_mm, rnd, RefMotion, to_global
from ..seams import CLOCK, SimClock

PROP = 'C17'
RUNS = dict(quick=5000, thorough=90000)
RULE = 'a run with at least one tick of non-zero length; distinct by digest of the event log'
PROBES = ['velocity-law', 'twin', 'point-velocity', 'rest', 'repose']
STATE_MEASURE = 'distinct (motion kind, event kind, tick-length class) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'


def gen_dt(rng):
    d = rng.random()
    if d < .1:
        return 0.
    if d < .6:
        return rnd(rng.uniform(.001, .2))
    if d < .9:
        return rnd(rng.uniform(.2, 3))
    return rnd(rng.uniform(5, 300))


def gen(rng, tier, i):
    ops, names = [], {}
    for k in range(rng.randrange(1, 4)):
        op = gen_spawn(rng, 'b%d' % k, mmk=('static', 'sin', 'sin', 'sin', 'int', 'wp', None))
        if rng.random() < .2 and op['mm']:
            op['mm']['pos'] = [rng.randrange(-6, 7), rng.randrange(-6, 7)]     # whole numbers, as a user would write them
        if rng.random() < .12 and op['mm'] and op['mm']['m'] in ('static', 'sin'):
            op['mm'].update(pos=[0., 0.], rot=0., dflt=True)
            if op['mm']['m'] == 'sin':
                op['mm'].update({k: 0 for k in ('m1', 'm2', 'p1', 'p2') if rng.random() < .35})
        ops.append(op)
        names[op['id']] = op
    n = rng.randrange(4, 40 if tier == 'thorough' else 24)
    base = gen_dt(rng)
    for _ in range(n):
        b = rng.choice(sorted(names))
        r = rng.random()
        if r < .6:
            r2 = rng.random()
            # jitter, missed (double), stalled and zero ticks around a base period
            dt = rnd(base * rng.uniform(.5, 1.5)) if r2 < .4 else 2 * base if r2 < .5 else gen_dt(rng)
            ops.append(dict(op='tick', dt=dt, **(dict(who=[b]) if rng.random() < .25 else {})))
        elif r < .68:
            ops.append(dict(op='set_pos', id=b, p=[rnd(rng.uniform(-8, 8)), rnd(rng.uniform(-8, 8))] if rng.random() < .6
                            else [rng.randrange(-8, 9), rng.randrange(-8, 9)]))
        elif r < .74:
            ops.append(dict(op='set_rot', id=b, r=rnd(rng.uniform(-7, 7))))
        elif r < .79:
            ops.append(dict(op='set_mm', id=b, mm=gen_mm(rng, ('static', 'sin', 'sin', None))))
        elif r < .84:
            ops.append(dict(op='twin', id=b))
        else:
            ops.append(dict(op='vel', id=b, p=gen_point(rng, names[b])))
    return dict(ops=ops)


def execute(trace, ctx):
    CLOCK.clock = SimClock(trace.get('clock'))
    w = World(ctx)
    twins = {}
    ticked = False
    for op in trace['ops']:
        k = op['op']
        if k == 'tick':
            for name, b in w.b.items():
                if op.get('who') is not None and name not in op['who']:
                    continue
                dt = op['dt']
                if b.mm is None:
                    before = ctx.call(b.ob.pos), ctx.call(b.ob.rot)
                    ctx.call(b.ob.move, dt)
                    with ctx.judging('pose'):
                        ctx.ensure(np.allclose(before[0], b.ob.pos(), atol=0) and before[1] == b.ob.rot() == 0, 'moved-without-motion', '')
                    continue
                with ctx.judging('velocity and pose'):
                    v = np.array(ctx.call(b.mm.lin_vel), float)
                    o = float(ctx.call(b.mm.rot_vel))
                    p0, r0 = np.array(ctx.call(b.ob.pos), float), float(ctx.call(b.ob.rot))
                    m = b.ref.s['m']
                    if m in ('static', 'sin'):
                        ev, eo = b.ref.vel()
                        ctx.count('velocity-law')
                        ctx.ensure(np.allclose(v, ev, atol=1e-7 * (1 + b.ref.t)) and abs(o - eo) < 1e-7 * (1 + b.ref.t), 'velocity-law',
                                   lambda: '%s at t=%g: reports %s %s, expected %s %s' % (m, b.ref.t, v, o, ev, eo))
                    ctx.call(b.ob.move, dt, what='move')
                    p1, r1 = np.array(ctx.call(b.ob.pos), float), float(ctx.call(b.ob.rot))
                    tol = 1e-9 * (1 + abs(dt) * (1 + np.abs(v).max()) + np.abs(p0).max())
                    ctx.ensure(np.allclose(p1, p0 + v * dt, atol=tol, rtol=0) and abs(r1 - (r0 + o * dt)) <= 1e-9 * (1 + abs(o * dt) + abs(r0)),
                               'not-integrated', lambda: '%s: pose %s %s + velocity %s %s * %g gives %s %s' % (m, p0, r0, v, o, dt, p1, r1))
                    if dt == 0:
                        ctx.ensure(np.array_equal(p1, p0) and r1 == r0, 'zero-tick', '')
                        v2, o2 = np.array(ctx.call(b.mm.lin_vel), float), float(ctx.call(b.mm.rot_vel))
                        ctx.ensure(np.allclose(v2, v, atol=1e-12) and abs(o2 - o) < 1e-12, 'zero-tick', 'velocity changed')
                        ctx.count('fault:zero-tick')
                    elif dt > 4:
                        ctx.count('fault:stalled-tick')
                    b.ref.tick(dt, (v, o))
                    ep = b.ref.pose()
                    ctx.ensure(np.allclose(p1, ep[:2], atol=1e-6 * (1 + np.abs(ep).max()), rtol=0) and abs(r1 - ep[2]) < 1e-6 * (1 + abs(ep[2])),
                               'pose', lambda: '%s: %s %s expected %s' % (m, p1, r1, ep))
                    ctx.state(m, k, 0 if dt == 0 else 1 if dt < .2 else 2 if dt < 4 else 3)
                    ctx.log('t', name, dt, p1.tolist(), r1)
                for t in twins.get(name, []):
                    ctx.call(t.move, None, dt)
                    with ctx.judging('twin motion'):
                        ctx.count('twin')
                        ctx.ensure(np.array_equal(np.asarray(t.pos(), float), p1) and float(t.rot()) == r1, 'twin-differs',
                                   lambda: '%s %s vs %s %s' % (t.pos(), t.rot(), p1, r1))
                ticked |= dt != 0
            if op.get('who'):
                ctx.count('fault:missed-tick-of-others')
            ctx.simtime += op['dt']
        elif k == 'twin':
            b = w.b.get(op['id'])
            if b is not None and b.mm is not None:
                twins.setdefault(op['id'], []).append(copy.deepcopy(b.mm))
        elif k == 'vel':
            b = w.b.get(op['id'])
            if b is None or not b.star:
                continue
            with ctx.judging('point velocity'):
                x = to_global(op['p'], b.pose())
                g = np.asarray(ctx.call(b.ob.vel_intertial_frame, x.copy(), what='vel_intertial_frame'), float)
                if b.mm is None:
                    e = np.zeros(2)
                else:
                    v, o = np.asarray(b.mm.lin_vel(), float), float(b.mm.rot_vel())
                    d = x - np.array(b.pose()[:2])
                    e = v + o * np.array([-d[1], d[0]])
                ctx.count('point-velocity')
                ctx.ensure(g.shape == (2,) and np.allclose(g, e, atol=1e-8 * (1 + np.abs(x).max())), 'point-velocity',
                           lambda: '%s expected %s' % (g, e))
        else:
            if w.event(op):
                if k == 'set_mm':
                    twins.pop(op['id'], None)
                if k in ('set_pos', 'set_rot'):
                    ctx.count('repose')
                    for t in twins.get(op['id'], []):
                        t.set_pos(np.array(w.b[op['id']].ref.pos)), t.set_rot(w.b[op['id']].ref.rot)
    for b in w.b.values():
        if b.ref is not None and b.ref.s['m'] == 'static':
            ctx.count('rest')
    ctx.nontrivial = ticked
