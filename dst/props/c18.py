"""C18: timetabled motion keeps its timetable and comes to rest."""
import numpy as np

from ..bodyworld import lib, make_mm, rnd
from ..seams import CLOCK, SimClock

PROP = 'C18'
RUNS = dict(quick=8000, thorough=150000)
RULE = 'a run in which at least one timetable instant is reached or passed; distinct by digest of the event log'
PROBES = ['instant', 'between', 'rest', 'rest-long', 'across-instant', 'homing', 'came-home']
STATE_MEASURE = 'distinct (segment index, number of segments, phase, tick-length class) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'
ASSUME = ['instants and ticks are binary fractions, so that "a tick ends exactly at an instant" has a meaning in floating point']
SHRINK_IN = ()


def gen(rng, tier, i):
    n = rng.randrange(1, 7)
    free = rng.random() < .3
    whole = rng.random() < .3

    def pt():
        if whole:
            return [rng.randrange(-9, 10), rng.randrange(-9, 10)]
        return [rnd(rng.uniform(-9, 9)), rnd(rng.uniform(-9, 9))]
    pts = [pt() for _ in range(n + 1)]
    for k in range(1, n + 1):
        if rng.random() < .15:
            pts[k] = list(pts[k - 1])
    tp = [[rng.randrange(1, 5) if whole else rng.randrange(1, 400) / 64, p] for p in pts[1:]]
    ops = []
    if free:
        # ticks step across the instants
        left, base = sum(t for t, _ in tp) + 1e-6, rng.uniform(.02, 3)
        while left > 0:
            dt = rng.choice([0., rnd(base), rnd(base * rng.uniform(.3, 1.7)), rnd(rng.uniform(.01, 3)), rnd(rng.uniform(.1, 12))])
            if rng.random() < .3:
                ops.append(dict(op='vel', n=rng.randrange(1, 4)))
            ops.append(dict(op='tick', dt=dt))
            left -= dt
        return dict(ops=ops, pos=pts[0], tp=tp, carrier=rng.choice(['model', 'ellipse', 'polygon']), free=rng.randrange(1 << 30))
    for t, _ in tp:
        left = round(t * 256)
        while left:
            r = rng.random()
            d = left if r < .25 else rng.randrange(1, left + 1) if r < .7 else min(left, rng.randrange(1, 40))
            if rng.random() < .08:
                ops.append(dict(op='tick', dt=0.))
            if rng.random() < .3:
                ops.append(dict(op='vel', n=rng.randrange(1, 4)))
            ops.append(dict(op='tick', dt=d / 256))
            left -= d
    for _ in range(rng.randrange(0, 12)):
        ops.append(dict(op='tick', dt=rng.choice([0., rnd(rng.uniform(.001, .1)), rnd(rng.uniform(.1, 3)), rnd(rng.uniform(3, 1000))])))
    if rng.random() < .1:
        ops.insert(rng.randrange(len(ops)), dict(op='copy'))
    return dict(ops=ops, pos=pts[0], tp=tp, carrier=rng.choice(['model', 'ellipse', 'polygon']))


def execute(trace, ctx):
    CLOCK.clock = SimClock()
    obs, _ = lib()
    tp = trace['tp']
    if not tp or any(t <= 0 for t, _ in tp):
        return
    mm = ctx.call(make_mm, dict(m='int', pos=trace['pos'], tp=tp), what='Interval')
    ob = None
    if trace['carrier'] == 'ellipse':
        ob = ctx.call(obs.Ellipse, [1., .5], motion_model=mm)
    elif trace['carrier'] == 'polygon':
        ob = ctx.call(obs.Polygon, [[0, 0], [1, 0], [0, 1]], motion_model=mm)
    if 'free' in trace:
        return free(trace, ctx, mm, ob)
    pts = np.array([trace['pos']] + [p for _, p in tp], float)
    times = np.cumsum([0.] + [t for t, _ in tp])
    t = 0.
    sc = 1e-9 * (1 + np.abs(pts).max()) * 10
    reached = 0
    for op in trace['ops']:
        if op['op'] == 'vel':
            for _ in range(op['n']):
                ctx.call(mm.lin_vel, what='lin_vel')
            continue
        if op['op'] == 'copy':
            import copy
            if ob is None:
                mm = copy.deepcopy(mm)
            continue
        dt = op['dt']
        nxt = times[np.searchsorted(times, t, side='right')] if t < times[-1] else None
        if nxt is not None and t + dt > nxt:
            return    # steps across an instant: outside the statement (only reachable while minimising)
        ctx.call(ob.move, dt, what='move') if ob is not None else ctx.call(mm.move, None, dt, what='move')
        ctx.simtime += dt
        t += dt
        with ctx.judging('position'):
            p = np.asarray(ctx.call((ob or mm).pos, what='pos'), float)
            if t >= times[-1]:
                e, ph = pts[-1], 'rest'
                if nxt is None:
                    ctx.count('rest')
                    if dt > 3:
                        ctx.count('rest-long')
                        ctx.count('fault:stalled-tick')
            else:
                i = int(np.searchsorted(times, t, side='right'))
                f = (t - times[i - 1]) / (times[i] - times[i - 1])
                e, ph = pts[i - 1] + f * (pts[i] - pts[i - 1]), 'between'
                ctx.count('between')
            if nxt is not None and t == nxt:
                ctx.count('instant')
                reached += 1
            if dt == 0:
                ctx.count('fault:zero-tick')
            ctx.ensure(np.allclose(p, e, atol=sc, rtol=0), 'off-timetable' if ph == 'between' or nxt is not None else 'not-at-rest',
                       lambda: 't=%g (instants %s): at %s, expected %s' % (t, times.tolist(), p, e))
            ctx.ensure(float((ob or mm).rot()) == 0, 'rotated', '')
        ctx.log('t', dt, p.tolist())
        ctx.state(int(np.searchsorted(times, t)), len(tp), ph, 0 if dt == 0 else 1 if dt < .1 else 2 if dt < 3 else 3)
    ctx.nontrivial = reached > 0


def free(trace, ctx, mm, ob):
    """ticks which step across instants, then short ticks until the obstacle has come home"""
    import random
    rng = random.Random(trace['free'])
    tp = trace['tp']
    pts = np.array([trace['pos']] + [p for _, p in tp], float)
    times = np.cumsum([0.] + [t for t, _ in tp])
    sc = 1e-9 * (1 + np.abs(pts).max()) * 100

    def pos():
        return np.asarray(ctx.call((ob or mm).pos, what='pos'), float)

    def move(dt):
        ctx.call(ob.move, dt, what='move') if ob is not None else ctx.call(mm.move, None, dt, what='move')
        ctx.simtime += dt
    t, p = 0., pos()
    for op in trace['ops']:
        if t >= times[-1]:
            break
        if op['op'] == 'vel':
            for _ in range(op['n']):
                ctx.call(mm.lin_vel, what='lin_vel')
            continue
        i = int(np.searchsorted(times, t, side='right'))
        if np.abs(times - t).min() < 1e-7 and t not in times:
            return
        v = (pts[i] - pts[i - 1]) / (times[i] - times[i - 1])
        move(op['dt'])
        q = pos()
        with ctx.judging('velocity'):
            ctx.ensure(np.allclose(q, p + v * op['dt'], atol=sc * (1 + op['dt']), rtol=0), 'not-scheduled-velocity',
                       lambda: 't=%g (instants %s): from %s to %s in %g, expected velocity %s' % (t, times.tolist(), p, q, op['dt'], v))
        t, p = t + op['dt'], q
        if t > times[i]:
            ctx.count('across-instant')
            ctx.nontrivial = True
        ctx.log('f', op['dt'], p.tolist())
        ctx.state(i, len(tp), 'free', 0 if op['dt'] == 0 else 1 if op['dt'] < .1 else 2 if op['dt'] < 3 else 3)
    vn = float(np.linalg.norm(pts[-1] - pts[-2]) / (times[-1] - times[-2]))
    if t < times[-1] or vn < .05:
        return
    ctx.count('homing')
    cap = min(1., 1 / vn)
    d = float(np.linalg.norm(pts[-1] - p))
    bound = 1.1 * d / vn + (16 + max(0., np.log(vn))) / vn + 2 * cap
    lo = min(cap, max(bound / 4000, .02 * cap))
    T = 0.
    if d > 2000:
        return
    while d > 1e-5:
        with ctx.judging('homing'):
            ctx.ensure(T <= bound, 'not-home', lambda: 'still %g away from the last position %g after the last instant (bound %g)' % (d, T, bound))
            dt = rng.choice([cap, rng.uniform(lo, cap), lo])
            move(dt)
            q = pos()
            e = float(np.linalg.norm(pts[-1] - q))
            ctx.ensure(e <= d + 1e-9, 'moves-away', lambda: 'distance from the last position grows from %g to %g in a tick of %g (speed %g)' % (d, e, dt, vn))
            s = float(np.linalg.norm(q - p))
            ctx.ensure(abs(s + e - d) < 1e-7 * (1 + d), 'not-straight', lambda: 'from %s to %s, not towards %s' % (p, q, pts[-1]))
        T, p, d = T + dt, q, e
    ctx.count('came-home')
    ctx.log('home', T, p.tolist())
