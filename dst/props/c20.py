"""C20: shape generators keep their contracts for every random stream. The stream is the real generator put into states whose
outputs are chosen: extreme, repeated and tied draws mixed with ordinary ones."""
import math

import numpy as np

from .. import geom
from ..bodyworld import rnd
from ..core import LibRaised, OutOfDomain
from ..seams import CLOCK, SimClock

PROP = 'C20'
RUNS = dict(quick=8000, thorough=120000)
RULE = 'a run that generated at least one shape from a stream with chosen draws; distinct by digest of the shapes'
PROBES = ['convex', 'star', 'triangle', 'refused', 'same-again', 'ties', 'tiny-steps']
STATE_MEASURE = 'distinct (generator, vertex count, draw pattern, verdict) tuples'
STUB = 'state of numpy\'s global random stream (chosen draws), clock (time module), stdout, matplotlib show'
SHRINK_IN = ()


# ------------------------------------------------------------------ a stream with chosen draws
def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    z = y
    for _ in range(5):
        z = y ^ ((z << 7) & 0x9d2c5680)
    y = z & 0xffffffff
    z = y
    for _ in range(3):
        z = y ^ (z >> 11)
    return z & 0xffffffff


def make_state(st):
    """st: {seed, p, pool} - every word of the stream is, with probability p, one of the pool, else a pseudo-random one"""
    import random
    r = random.Random(st['seed'])
    words = []
    while len(words) < 624:
        # mostly word pairs, since a floating point draw takes two
        w = r.choice(st['pool']) if r.random() < (st['p'] if len(words) >= st.get('head', 0) else .97) else None
        if w is None:
            words += [r.getrandbits(32), r.getrandbits(32)]
        elif r.random() < .98:
            words += [w, st['lo']]
        else:
            words += [w]
    key = np.array([untemper(w) for w in words[:624]], dtype=np.uint32)
    return ('MT19937', key, 0, 0, 0.0)


def gen_state(rng):
    r = rng.random()
    if r < .15:
        pool, p = [0], 0.
    elif r < .45:
        pool, p = [0, 0xffffffff], rng.uniform(.05, .6)
    elif r < .75:
        k = rng.randrange(1, 4)
        pool, p = [rng.randrange(8) << 29 for _ in range(k)], rng.uniform(.3, .85)
    else:
        pool, p = [rng.getrandbits(32) for _ in range(rng.randrange(1, 5))], rng.uniform(.3, .85)
    return dict(seed=rng.getrandbits(32), p=rnd(p), pool=pool, lo=rng.choice([0, 0, 0xffffffff]))


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randrange(2, 9)):
        r = rng.random()
        op = dict(st=gen_state(rng))
        if r < .5:
            op.update(op='convex', n=rng.choice([3, 3, 4, 5, 6, 8, 10, 12, 20, 40]),
                      box=[1., 1.] if rng.random() < .3 else None if rng.random() < .2 else [rng.choice([1., 2., .5, rnd(rng.uniform(.1, 9))]), rng.choice([1., 2., 1., rnd(rng.uniform(.1, 9))])])
            if rng.random() < .3:
                # every coordinate on a coarse grid: many collinear and equal edges
                op['st'].update(head=4 * op['n'], pool=[j << 29 for j in rng.sample(range(8), rng.randrange(3, 8))], lo=0)
        elif r < .8:
            op.update(op='star', n=rng.choice([3, 3, 4, 5, 7, 10, 20]), c=[rnd(rng.uniform(-5, 5)), rnd(rng.uniform(-5, 5))], r=rnd(10 ** rng.uniform(-1, 1)),
                      irr=rng.choice([0., 1., .3, rnd(rng.random())]), spk=rng.choice([0., 1., .5, rnd(rng.random())]))
        elif r < .88:
            op.update(op='bad', n=rng.choice([3, 5, 9]), irr=rng.choice([-.1, 1.1, -1e-9, .5, 7.]), spk=rng.choice([-.1, 1.1, 1 + 1e-9, .5, -3.]))
        else:
            op.update(op='tri', t=[[rnd(rng.uniform(-5, 5)), rnd(rng.uniform(-5, 5))] for _ in range(3)], k=rng.randrange(1, 20))
        ops.append(op)
    return dict(ops=ops)


# ------------------------------------------------------------------ contracts
def check_convex(ctx, op, pts):
    P = np.asarray(pts, float)
    n = op['n']
    box = op['box'] or [1, 1]
    ctx.ensure(P.shape == (n, 2), 'vertex-count', lambda: '%s for n=%d' % (P.shape, n))
    ctx.ensure(np.all(np.isfinite(P)), 'not-finite', lambda: str(P))
    ext = P.max(0) - P.min(0)
    ctx.ensure(ext[0] <= box[0] * (1 + 1e-9) and ext[1] <= box[1] * (1 + 1e-9), 'does-not-fit-box', lambda: 'extent %s, box %s' % (ext, box))
    ctx.ensure(np.all(np.abs(P) <= np.array(box) * (1 + 1e-9)), 'does-not-fit-box', lambda: 'vertex outside the box around the origin')
    # convex: all vertices on the boundary of their hull, in order once around
    import shapely
    hull = geom.hull(P)
    scale = float(ext.max())
    if hull.geom_type != 'Polygon' or hull.area < 1e-6 * max(scale ** 2, 1e-6 * max(box) ** 2):
        return 'flat'
    ring = shapely.geometry.polygon.orient(hull).exterior
    off = max(ring.distance(shapely.Point(q)) for q in P)
    ctx.ensure(off < 1e-9 * max(box), 'not-convex', lambda: 'a vertex is %g inside the hull of %s' % (off, P.tolist()))
    L = ring.length
    at = np.array([ring.project(shapely.Point(q)) for q in P])
    st = np.mod(np.roll(at, -1) - at, L)
    st[st > L - 1e-7 * max(box)] = 0.
    ctx.ensure(abs(st.sum() - L) < 1e-5 * max(box), 'not-convex', lambda: 'vertices are not in order once around: %s' % P.tolist())
    ctx.ensure(hull.buffer(1e-9 * max(box)).covers(shapely.Point(0., 0.)), 'origin-outside', lambda: 'the origin is outside %s' % P.tolist())
    return 'full'


def check_star(ctx, op, pts):
    n = op['n']
    ctx.ensure(len(pts) == n, 'vertex-count', lambda: '%d for n=%d' % (len(pts), n))
    P = np.asarray(pts, float) - np.array(op['c'])
    ctx.ensure(np.all(np.isfinite(P)), 'not-finite', lambda: str(P))
    rad = np.linalg.norm(P, axis=1)
    ctx.ensure(np.all(rad <= 2 * op['r'] * (1 + 1e-9)), 'radius', lambda: 'radius %g, average requested %g' % (rad.max(), op['r']))
    if op['spk'] == 0:
        ctx.ensure(np.allclose(rad, op['r'], rtol=1e-6), 'radius', lambda: 'no spikiness but radii %s, requested %g' % (rad, op['r']))
    big = rad > 1e-6 * op['r']
    th = np.arctan2(P[big, 1], P[big, 0])
    if len(th) >= 2:
        st = np.mod(np.roll(th, -1) - th, 2 * math.pi)
        st[st > 2 * math.pi - 1e-7] = 0.
        if st.sum() < 1e-6:
            return 'one-direction'
        ctx.ensure(abs(st.sum() - 2 * math.pi) < 1e-5, 'angular-order', lambda: 'angles %s are not counter-clockwise once around' % th)
        if op['irr'] == 0 and big.all():
            ctx.ensure(np.allclose(st, 2 * math.pi / n, atol=1e-6), 'angular-steps', lambda: 'no irregularity but steps %s' % st)
        if st.min() < .01:
            ctx.count('tiny-steps')
    return 'ok'


def generate(ctx, op):
    import utils
    from utils import cg
    k = op['op']
    if k == 'convex':
        return ctx.call(cg.generate_convex_polygon, op['n'], op['box'], what='generate_convex_polygon')
    if k == 'star':
        return ctx.call(cg.generate_star_polygon, list(op['c']), op['r'], op['irr'], op['spk'], op['n'], what='generate_star_polygon')
    if k == 'tri':
        a, b, c = [np.array(p) for p in op['t']]
        return [ctx.call(cg.point_in_triangle, a, b, c, what='point_in_triangle') for _ in range(op['k'])]
    raise AssertionError(k)


def degenerate(op):
    """every angular step drawn is zero: no division of the circle can be made of it"""
    if op['op'] != 'star' or op['irr'] < 1:
        return False
    np.random.set_state(make_state(op['st']))
    s = sum(np.random.uniform(0, 1) for _ in range(op['n']))
    return s < 1e-12


def execute(trace, ctx):
    CLOCK.clock = SimClock(dict(rate=1e-6))
    done = []
    for op in trace['ops']:
        k = op['op']
        if k == 'convex' and not (op['n'] >= 3 and (op['box'] is None or min(op['box']) > 1e-3)):
            raise OutOfDomain('parameters')
        if k in ('star', 'bad') and op['n'] < 3 or k == 'star' and not (op['r'] > 1e-3 and 0 <= op['irr'] <= 1 and 0 <= op['spk'] <= 1):
            raise OutOfDomain('parameters')
        if degenerate(op):
            continue
        np.random.set_state(make_state(op['st']))
        if op['st']['p']:
            ctx.count('fault:chosen-draws')
        if k == 'bad':
            from utils import cg
            bad = not (0 <= op['irr'] <= 1 and 0 <= op['spk'] <= 1)
            try:
                r = ctx.call(cg.generate_star_polygon, [0., 0.], 1., op['irr'], op['spk'], op['n'], what='generate_star_polygon')
                ctx.ensure(not bad, 'accepted', lambda: 'irregularity %g, spikiness %g accepted' % (op['irr'], op['spk']))
            except LibRaised as e:
                if not bad or not isinstance(e.exc, ValueError):
                    raise
                ctx.count('refused')
            continue
        out = generate(ctx, op)
        end = np.random.get_state()
        with ctx.judging('generated shape'):
            if k == 'convex':
                v = check_convex(ctx, op, out)
                P = np.asarray(out, float)
                e = np.roll(P, -1, 0) - P
                if v == 'full' and np.any(np.abs(geom_cross(e, np.roll(e, -1, 0))) < 1e-12):
                    ctx.count('ties')
            elif k == 'star':
                v = check_star(ctx, op, out)
            else:
                v = 'in'
                a, b, c = [np.array(p) for p in op['t']]
                D = float((b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0])
                for p in out:
                    p = np.asarray(p, float)
                    ctx.ensure(p.shape == (2,) and np.all(np.isfinite(p)), 'not-finite', lambda: str(p))
                    if abs(D) > 1e-2:
                        w = [geom.cross(c - b, p - b) / D, geom.cross(a - c, p - c) / D, geom.cross(b - a, p - a) / D]
                        ctx.ensure(min(w) > -1e-9, 'outside-triangle', lambda: 'point %s of triangle %s' % (p, op['t']))
            ctx.count(dict(convex='convex', star='star', tri='triangle')[k])
            ctx.state(k, op.get('n'), len(op['st']['pool']), round(op['st']['p'], 1), v)
            done.append((op, np.asarray(out, float).copy(), end))
            ctx.log(k, op.get('n'), np.asarray(out, float).tobytes().hex()[:64])
    # the same stream gives the same shape, whatever was generated in between and whatever the clock says
    CLOCK.clock = SimClock(dict(start=5., rate=1e-3))
    for op, out, end in done[::-1]:
        np.random.set_state(make_state(op['st']))
        again = np.asarray(generate(ctx, op), float)
        ctx.ensure(np.array_equal(again, out), 'not-reproducible', lambda: '%s twice from the same stream' % op['op'])
        e2 = np.random.get_state()
        ctx.ensure(np.array_equal(e2[1], end[1]) and e2[2:] == end[2:], 'not-reproducible', lambda: '%s left the stream elsewhere' % op['op'])
        ctx.count('same-again')
    ctx.nontrivial = bool(done) and any(o['st']['p'] for o, _, _ in done)


def geom_cross(a, b):
    return a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0]
