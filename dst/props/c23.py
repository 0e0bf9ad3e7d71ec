"""C23: queries on a planned region agree with the region. A reader queries every combined region right after it was planned, in an
order of its own; the answers are compared with an independent model of the region and with a forked twin asking in another order."""
import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..bodyworld import frame, rnd
from ..planworld import branch, gen_loop, run_loop
from ..regions import norm, combined

PROP = 'C23'
RUNS = dict(quick=1500, thorough=26000)
RULE = 'a run that judged queries on at least one combined region; distinct by digest of the event, plan and answer log'
PROBES = ['in', 'out', 'mapped', 'normal', 'normal-on-boundary', 'distance', 'crossing', 'missed', 'combination', 'convexified', 'member-with-hull',
          'ellipse-in-region', 'other-order', 'corner-covered', 'corner', 'sub-ellipse', 'sub-hull', 'sub-polygon', 'moved', 'moved-guarded', 'not-moved-out']
STATE_MEASURE = 'distinct (kind of region, members, query, frames, verdict) tuples and plan outcomes'
SHRINK_IN = ('q',)
PROF = dict(budget=.02, mi=.02, mc=.25, ws=.1, ex=.15, lose=.03, steps=(1, 6), n=[2, 3, 3, 4, 4, 5, 5, 6, 7])
KINDS = ['loc', 'loc', 'loc', 'bm', 'bm', 'df', 'nrm', 'nrm', 'bnrm', 'seg', 'rdir', 'convex', 'poly', 'xr', 'corner', 'corner', 'sub', 'sub']
T = 2e-3           # ellipses and their polygons differ by the sagitta, plus the margin the library puts around them


def gen_q(rng):
    q = dict(k=rng.choice(KINDS), f=rng.choice('go'), of=rng.choice('go'))
    r = rng.random()
    if r < .3:
        q['p'] = dict(u=rnd(rng.random()), s=rnd(rng.uniform(.02, .98)))            # along the ray to a boundary point
    elif r < .55:
        q['p'] = dict(u=rnd(rng.random()), s=rnd(1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, -.5)))
    elif r < .85:
        q['p'] = dict(u=rnd(rng.random()), s=rnd(rng.uniform(1.02, 4)))
    elif r < .93:
        q['p'] = dict(u=rnd(rng.random()), s=rnd(10 ** rng.uniform(.6, 2)))
    else:
        q['p'] = dict(d=rng.randrange(8), s=rnd(rng.uniform(.05, 3)))               # axis-aligned with the reference point
    if rng.random() < .2:
        q['p'] = beside(rng)
    if q['k'] == 'seg':
        q['e'] = dict(u=rnd(rng.random()), s=rnd(rng.uniform(0., 3)))
    if rng.random() < .08:
        # the user moves the reference point within the kernel, or tries to move it out of the region
        q['k'] = 'set'
        q['w'] = [rnd(rng.random()) for _ in range(3)]
        q['far'] = rng.random() < .3
    return q


def beside(rng):
    # beside a corner of the hull added to the members, or of the region
    return dict(c=rng.randrange(60), t=rnd(10 ** rng.uniform(-2.5, -.3)), b=rng.random() < .5, s=rng.choice([1.01, 1.5]))


def gen_round(rng):
    # the same questions before and after the reference point is moved
    q = [dict(k=rng.choice(['sub', 'sub', 'nrm', 'bm']), f=rng.choice('go'), of=rng.choice('go'), p=beside(rng)) for _ in range(rng.randrange(2, 7))]
    m = dict(k='set', f='o', of='o', p=dict(u=0., s=1.), far=False)
    return [dict(x) for x in q] + [dict(m, w=[1., 0., 0.][k:] + [1., 0., 0.][:k]) for k in [rng.randrange(3)]] + q


def gen(rng, tier, i):
    out = []
    for op in gen_loop(rng, tier, PROF):
        out.append(op)
        if op['op'] == 'plan':
            op['look'] = dict(q=[gen_q(rng) for _ in range(rng.randrange(3, 16))] + (gen_round(rng) if rng.random() < .35 else []), shuffle=rng.getrandbits(30))
    return dict(ops=out)


class Region:
    """the region of a cluster as a set of points, bracketed where ellipses are only approximated"""

    def __init__(self, w, p, i):
        self.r = p.regions[i]
        self.xr = p.xr[i]
        self.m = p.members[i]
        self.ob = p.clusters[i].cluster_obstacle
        self.comb = combined(self.ob)
        self.b = [w.b[n] for n in self.m]
        hull = self.ob.hull_cluster() if self.comb else None
        self.hull = None if hull is None or hull.geom_type != 'Polygon' else hull
        self.pieces = outs = [p.outlines[n] for n in self.m]
        self.sag = max(p.sag[n] for n in self.m)
        self.ellipses = any(w.b[n].kind == 'ellipse' for n in self.m)
        # piece by piece: their union would be exposed to the robustness of boolean operations
        self.outer = [g.buffer(T) for g in [self.r] + outs] if self.comb else [self.r.buffer(1e-6)]
        self.inner = self.r.buffer(-T if self.comb and self.ellipses else -1e-6 * (1 + np.abs(self.xr).max()))
        # seams: pieces meet there, and ellipses are a little smaller than their polygons
        self.seams = [o.boundary for o in outs]
        self.size = max(self.r.bounds[2] - self.r.bounds[0], self.r.bounds[3] - self.r.bounds[1])
        c = np.asarray(self.r.exterior.coords)[:-1]
        if not sg.polygon.LinearRing(c).is_ccw:
            c = c[::-1]
        self.v = c
        self.e = np.roll(c, -1, axis=0) - c
        # corners as seen from the reference point, in order all around
        self.kp = np.asarray(p.kp[i], float)
        self.look_from(self.xr)

    def look_from(self, xr):
        c = self.v
        self.xr = xr
        a = np.unwrap(np.arctan2(c[:, 1] - self.xr[1], c[:, 0] - self.xr[0]))
        da = np.diff(np.append(a, a[0] + 2 * np.pi))
        self.monotone = bool((da > 1e-6).all()) and abs(da.sum() - 2 * np.pi) < 1e-6
        self.a = a

    def target(self, q):
        if q['far']:
            b = self.r.bounds
            return np.array([b[2], b[3]]) + .1 + np.abs(q['w'][:2])
        w = np.array(q['w']) + .1
        return w @ self.kp / w.sum()

    def point(self, s):
        if 'd' in s:
            t = s['d'] * np.pi / 4
            d = np.round([np.cos(t), np.sin(t)], 3)
            return self.xr + d * s['s'] * self.size
        if 'c' in s:
            v = self.v if self.hull is None else np.asarray(self.hull.exterior.coords)[:-1]
            c, e = v[s['c'] % len(v)], v[(s['c'] + (1 if s['b'] else -1)) % len(v)]
            return self.xr + s['s'] * (c + s['t'] * (e - c) - self.xr)
        b = self.r.exterior.interpolate(s['u'], normalized=True)
        return self.xr + s['s'] * (np.array([b.x, b.y]) - self.xr)

    def side(self, x):
        pt = sg.Point(x)
        if not any(g.covers(pt) for g in self.outer):
            return 1
        if self.inner.contains(pt) and (not self.comb or min(s.distance(pt) for s in self.seams) > T):
            return -1
        return 0

    def corner(self, i):
        """a corner of the hull added to the members, in the coordinates the hull has"""
        if self.hull is None:
            return None
        c = np.asarray(self.hull.exterior.coords)[:-1]
        return c[i % len(c)]

    def outer_piece(self, x):
        """(kind, normal, point): what bounds the region on the ray through x. None near seams and where parts are about as far"""
        d = x - self.xr
        if np.linalg.norm(d) < 1e-2 or self.hull is None and self.ob.hull_cluster() is not None:
            return None
        d = d / np.linalg.norm(d)
        # the same a little to both sides: a ray along an edge, or one that only just touches a part, is not judged
        sides = []
        for turn in (-1e-3, 1e-3, 0.):
            c, s = np.cos(turn), np.sin(turn)
            e = np.array([c * d[0] - s * d[1], s * d[0] + c * d[1]])
            ray = sg.LineString([self.xr, self.xr + 3 * (self.size + 1) * e])

            def last(g):
                k = ray.intersection(g)
                return -1. if k.is_empty else max(float((np.asarray(q) - self.xr) @ e) for q in shapely.get_coordinates(k))
            t = [(last(g), i) for i, g in enumerate(self.pieces + ([self.hull] if self.hull is not None else []))]
            t.sort()
            if t[-1][0] < 1e-2 or len(t) > 1 and t[-1][0] - t[-2][0] < 2 * T + 2 * self.sag:
                return None
            sides.append(t[-1][1])
        if len(set(sides)) > 1:
            return None
        far, i = t[-1]
        if i < len(self.pieces) and self.b[i].kind == 'ellipse':
            pose = self.b[i].pose()
            o = geom.to_local(self.xr, pose)
            e = self.b[i].shape.exit(o, geom.to_local(self.xr + d, pose) - o)
            if e is None or e[1] is None:
                return None
            n = geom.to_global(np.asarray(e[1], float), (0., 0., pose[2]))
            # the polygon of an ellipse and the ellipse differ a little: grazing rays move along it
            return ('ellipse', n, geom.to_global(np.asarray(e[0], float), pose)) if n @ d > .1 else None
        g = self.hull if i == len(self.pieces) else self.pieces[i]
        c = np.asarray(g.exterior.coords)
        if not g.exterior.is_ccw:
            c = c[::-1]
        q = sg.Point(self.xr + far * d)
        k = [j for j in range(len(c) - 1) if sg.LineString(c[j:j + 2]).distance(q) < 1e-7]
        if len(k) != 1:
            return None
        e = c[k[0] + 1] - c[k[0]]
        L = np.linalg.norm(e)
        if L < 1e-2 or min(np.linalg.norm(np.asarray(q.coords[0]) - c[k[0]]), np.linalg.norm(np.asarray(q.coords[0]) - c[k[0] + 1])) < 1e-4:
            return None
        return ('hull' if g is self.hull else 'polygon'), np.array([e[1], -e[0]]) / L, self.xr + far * d

    def dist(self, g):
        return min(o.distance(g) for o in self.outer)

    def exits(self, d):
        """(least, greatest) distance along direction d at which the region ends for good"""
        ray = sg.LineString([self.xr, self.xr + 3 * (self.size + 1) * d])

        def last(g):
            k = ray.intersection(g)
            return 0. if k.is_empty else max(float((np.asarray(q) - self.xr) @ d) for q in shapely.get_coordinates(k))
        return last(self.inner), max(last(g) for g in self.outer)

    def edge(self, x):
        """index of the edge the ray through x leaves by; None near a corner"""
        if not self.monotone:
            return None
        a = np.arctan2(x[1] - self.xr[1], x[0] - self.xr[0])
        rel = (a - self.a[0]) % (2 * np.pi)
        t = self.a - self.a[0]
        if min(np.abs(rel - t).min(), 2 * np.pi - rel) < 1e-6:
            return None
        return int(np.searchsorted(t, rel)) - 1

    def normal(self, i):
        return np.array([self.e[i][1], -self.e[i][0]]) / np.linalg.norm(self.e[i])


def ask(R, q):
    """the library's answers to q, raw"""
    ob, k = R.ob, q['k']
    f, of = frame(q['f']), frame(q['of'])
    x = R.point(q['p'])
    if k == 'loc':
        return float(ob.point_location(x, f)), bool(ob.interior_point(x, f)), bool(ob.boundary_point(x, f)), bool(ob.exterior_point(x, f))
    if k == 'bm':
        return ob.boundary_mapping(x, f, of)
    if k == 'df':
        return float(ob.distance_function(x, f))
    if k == 'nrm':
        return ob.normal(x, f, of, type='polygon_approx') if R.comb else ob.normal(x, f, of)
    if k == 'bnrm':
        i = R.edge(x)
        if i is None or np.linalg.norm(R.e[i]) < .02:
            return None
        b = R.v[i] + R.e[i] * (.3 + .4 * (abs(q['p']['s']) % 1))
        return ob.normal(b, f, of, x_is_boundary=True)
    if k == 'corner':
        x = R.corner(int(q['p'].get('u', 0.) * 1e6) + q['p'].get('d', 0))
        return None if x is None else (float(ob.point_location(x)), bool(ob.interior_point(x)), bool(ob.boundary_point(x)), bool(ob.exterior_point(x)))
    if k == 'sub':
        e = R.outer_piece(x) if R.comb else None
        if e is None or e[0] == 'polygon' and not all(b.star for b in R.b):
            return None
        return ob.normal(e[2], f, of, type='sub_normal')
    if k == 'seg':
        return ob.line_intersection([x, R.point(q['e'])], f, of)
    if k == 'rdir':
        return ob.reference_direction(x, f, of)
    if k == 'set':
        y = R.target(q)
        old = R.xr
        if q['far'] or q['f'] == 'g':
            ob.set_xr(y.copy(), f, True)
        else:
            ob.set_xr(y.copy(), f)
        z = np.array(ob.xr(), float)
        R.look_from(z)
        return old, y, z
    if k == 'convex':
        return bool(ob.is_convex()), bool(ob.is_starshaped())
    if k == 'poly':
        return ob.polygon(of)
    if k == 'xr':
        return ob.xr(of)
    raise AssertionError(k)


def answer(R, q):
    try:
        return norm(ask(R, q))
    except Exception as e:
        return 'raised', type(e).__name__


def judge(ctx, R, q, a):
    k = q['k']
    x = R.point(q['p'])
    who = 'region of %s (reference point %s)' % (R.m, R.xr)
    d = x - R.xr
    L = float(np.linalg.norm(d))
    if k == 'loc':
        loc, i, b, e = a
        ctx.ensure(i + b + e == 1 and i == (loc < 0) and b == (loc == 0) and e == (loc > 0), 'location-contradicts',
                   lambda: '%s: %s is at location %g, interior %s boundary %s exterior %s' % (who, x, loc, i, b, e))
        s = R.side(x)
        if s:
            ctx.ensure(np.sign(loc) == s, 'location', lambda: '%s: %s is %s by %g but location is %g' %
                       (who, x, 'inside' if s < 0 else 'outside', R.r.boundary.distance(sg.Point(x)), loc))
            return 'in' if s < 0 else 'out'
    elif k == 'corner':
        if a is None:
            return None
        x = R.corner(int(q['p'].get('u', 0.) * 1e6) + q['p'].get('d', 0))
        pt = sg.Point(x)
        if any(g.contains(pt) and g.boundary.distance(pt) > T + 2 * R.sag for g in R.pieces):
            ctx.ensure(a[0] < 0 and a[1:] == (True, False, False), 'location', lambda: '%s: corner %s of the hull is well inside a member but location is %s' % (who, x, a))
            return 'corner-covered'
        if all(g.distance(pt) > T for g in R.pieces):
            ctx.ensure(a[0] == 0 and a[1:] == (False, True, False), 'boundary-location', lambda: '%s: corner %s of the region has location %s' % (who, x, a))
            return 'corner'
    elif k == 'sub':
        if a is None:
            return None
        e = R.outer_piece(x)
        n = np.asarray(a, float)
        ctx.ensure(n.shape == (2,) and abs(np.linalg.norm(n) - 1) < 1e-6, 'normal-unit', lambda: '%s: normal %s' % (who, n))
        ctx.ensure(np.linalg.norm(n - e[1]) < 1e-3, 'sub-normal', lambda: '%s: normal of the part bounding it at %s is %s, of the %s there %s' % (who, e[2], n, e[0], e[1]))
        return 'sub-' + e[0]
    elif k == 'set':
        old, y, z = a
        if q['far']:
            ctx.ensure(np.array_equal(z, old), 'moved-out', lambda: '%s: moved to %s, outside the region' % (who, z))
            return 'not-moved-out'
        if q['f'] == 'g':
            # which points of the border of the kernel are taken for its points is not judged here
            ctx.ensure(np.allclose(z, y, atol=1e-9) or np.array_equal(z, old), 'reference-point', lambda: '%s: asked to move to %s, from %s' % (who, y, old))
            return 'moved-guarded' if not np.array_equal(z, old) else None
        ctx.ensure(np.allclose(z, y, atol=1e-9), 'reference-point', lambda: '%s: asked to move to %s' % (who, y))
        return 'moved'
    elif k == 'xr':
        ctx.ensure(np.allclose(np.asarray(a, float), R.xr, atol=1e-9), 'reference-point', lambda: '%s: now at %s' % (who, a))
    elif k == 'poly':
        ctx.ensure(a.symmetric_difference(R.r).area < 1e-9, 'polygon', lambda: '%s: polygon differs from the region' % who)
    elif k == 'convex':
        h = geom.hull(R.r).area - R.r.area
        ctx.ensure(a[1], 'starshaped', 'a region is not starshaped')
        if h > 1e-2 * (1 + R.r.area):
            ctx.ensure(not a[0], 'convexity', lambda: '%s lacks area %g to its convex hull but says it is convex' % (who, h))
            return 'nonconvex'
    elif k == 'rdir':
        if L > 1e-3:
            ctx.ensure(np.linalg.norm(np.asarray(a, float) - d / L) < 1e-6, 'reference-direction', lambda: '%s: direction of %s is %s' % (who, x, a))
    elif k == 'seg':
        y = R.point(q['e'])
        if np.linalg.norm(y - x) < 1e-2:
            return None
        seg = sg.LineString([x, y])
        g = [np.asarray(z, float) for z in a]
        for z in g:
            ctx.ensure(z.shape == (2,), 'crossing', lambda: '%s' % (a,))
            ctx.ensure(seg.distance(sg.Point(z)) < 1e-4 * (1 + L * 1e-2), 'crossing-off-segment', lambda: '%s: %s is not on the segment %s %s' % (who, z, x, y))
            ctx.ensure(R.dist(sg.Point(z)) < T, 'crossing-off-region', lambda: '%s: %s is not in the region' % (who, z))
        if R.dist(seg) > 1e-3:
            ctx.ensure(not g, 'crossing', lambda: '%s: segment %s %s misses it but crosses at %s' % (who, x, y, g))
            return 'missed'
        if R.side(x) * R.side(y) < 0:
            ctx.ensure(len(g) > 0, 'no-crossing', lambda: '%s: segment from %s to %s crosses the boundary but has no crossings' % (who, x, y))
            return 'crossing'
    elif k in ('bm', 'df'):
        if L < 1e-2 or not R.inner.contains(sg.Point(R.xr)):
            return None
        d = d / L
        lo, hi = R.exits(d)
        if k == 'bm':
            ctx.ensure(a is not None, 'no-boundary', lambda: '%s: nothing found from the reference point through %s' % (who, x))
            m = np.asarray(a, float)
            ctx.ensure(m.shape == (2,), 'boundary-mapping', lambda: '%s' % (a,))
            t = float((m - R.xr) @ d)
            off = float(np.linalg.norm(m - R.xr - t * d))
            tol = 1e-4 * (1 + R.size)
            ctx.ensure(off < tol, 'off-ray', lambda: '%s: %s is off the ray through %s by %g' % (who, m, x, off))
            ctx.ensure(lo - tol <= t <= hi + tol, 'boundary-mapping',
                       lambda: '%s: the ray through %s ends at distance %g, boundary mapping at %g' % (who, x, (lo + hi) / 2, t))
            return 'mapped'
        s = R.side(x)
        if s < 0 and L < lo - T:
            ctx.ensure(0 <= a < 1, 'distance', lambda: '%s: %s is inside but has distance %g' % (who, x, a))
            return 'distance'
        if s > 0 and L > hi + T:
            ctx.ensure(a > 1, 'distance', lambda: '%s: %s is outside but has distance %g' % (who, x, a))
            return 'distance'
    elif k in ('nrm', 'bnrm'):
        if a is None or L < 1e-3:
            return None
        i = R.edge(x)
        if i is None:
            return None
        n = np.asarray(a, float)
        ctx.ensure(n.shape == (2,) and abs(np.linalg.norm(n) - 1) < 1e-6, 'normal-unit', lambda: '%s: normal %s' % (who, n))
        if min(np.linalg.norm(R.e[i]), 1) < 1e-5:
            return None
        tol = 1e-4 + 1e-7 / np.linalg.norm(R.e[i])
        ctx.ensure(np.linalg.norm(n - R.normal(i)) < tol, 'normal', lambda: '%s: normal at %s is %s, of the edge hit %s' % (who, x, n, R.normal(i)))
        return 'normal' if k == 'nrm' else 'normal-on-boundary'
    return None


def execute(trace, ctx):
    def after(w, p):
        if not p.flag:
            return
        look = p.op.get('look') or dict(q=[], shuffle=0)
        for i, cb in enumerate(p.comb):
            if not cb or p.regions[i].geom_type != 'Polygon':
                continue
            with ctx.judging('region'):
                R = Region(w, p, i)
            ctx.count('combination' if R.comb else 'convexified')
            if R.comb and R.ob.hull_cluster() is not None:
                ctx.count('member-with-hull')
            if R.ellipses:
                ctx.count('ellipse-in-region')
            order = list(range(len(look['q'])))
            rs = np.random.RandomState(look['shuffle'])
            rs.shuffle(order)
            # what was asked before the reference point was moved is asked before
            era = np.cumsum([2 * (q['k'] == 'set') for q in look['q']])
            order.sort(key=lambda j: era[j] - (look['q'][j]['k'] == 'set'))
            twin = branch(lambda: {j: answer(R, look['q'][j]) for j in order})
            got = {}
            for j, q in enumerate(look['q']):
                a = got[j] = ctx.call(ask, R, q, what='query ' + q['k'])
                with ctx.judging('%s of a region' % q['k']):
                    v = judge(ctx, R, q, a)
                ctx.nontrivial = True
                ctx.log('q', i, q['k'], v)
                if v:
                    ctx.count(v)
                    ctx.state(R.comb, len(R.m), q['k'], q['f'], q['of'], v)
            ctx.ensure(twin[0] == 'ok', 'order', lambda: 'asked in another order: %s' % (twin[1:],))
            if len(order) > 1:
                ctx.count('other-order')
            for j in got:
                ctx.ensure(norm(got[j]) == twin[1][j], 'order', lambda: 'query %s on region of %s depends on the order of queries' % (look['q'][j], R.m))
    run_loop(trace, ctx, after, raising_ok=True)
