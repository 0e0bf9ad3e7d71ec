"""Simulated control loop: obstacles move, the robot and goal move, the planner is called with whatever earlier plan
survived. Guarantees of a plan are judged against reference geometry built from the plan's inputs."""
import copy
import itertools
import math

import numpy as np
import shapely
import shapely.geometry as sg
from shapely.ops import unary_union

from . import geom
from .bodyworld import World, frame, gen_mm, gen_spawn, lib
from .core import LibRaised, OutOfDomain, Violation, forked
from .geom import to_global, rnd
from .seams import CLOCK, MON, SimClock

GP = .02           # robot and goal keep this distance to every obstacle (general position)
AREA = 1e-6
INCOMPLETE, COMPLETE, LATE = 0, 1, 2


def sh():
    import starshaped_hull
    return starshaped_hull


class Plan:
    pass


def outline(b):
    """reference region of a body at the pose it reports, as the library approximates it at best"""
    return sg.Polygon([to_global(p, b.pose()) for p in b.shape.poly(360)])


def kernel(b):
    """reference kernel of a body at the pose it reports; empty for bodies that do not count as starshaped"""
    if b.convex:
        return outline(b)
    if not b.star:
        return sg.Polygon()
    k = b.shape.kernel_poly()
    if k.is_empty or k.geom_type != 'Polygon':
        return sg.Polygon()
    return sg.Polygon([to_global(p, b.pose()) for p in np.asarray(k.exterior.coords)[:-1]])


def make_ws(spec):
    if spec is None:
        return None
    obs, mm = lib()
    if 'a' in spec:
        return obs.Ellipse(spec['a'], motion_model=mm.Static(spec['pos'], spec.get('rot', 0.)), id='temp')
    return obs.StarshapedPolygon(np.array(spec['v'], float), id='temp')


class PlanWorld(World):
    def __init__(self, ctx, keep=False):
        super().__init__(ctx, keep)
        self.x = np.array([-50., 0.])
        self.xg = np.array([50., .5])
        self.plans = []
        self.last = None        # what the control loop holds as its latest plan
        self.ws_cache = {}

    # ---- robot and goal
    def clearance(self, p):
        return min([b.shape.side(geom.to_local(p, b.pose())) for b in self.b.values()] + [1e9])

    def general(self, p=None):
        if p is not None:
            return self.clearance(p) >= GP
        return self.general(self.x) and self.general(self.xg)

    def cand(self, c):
        if isinstance(c, dict) and 'pocket' in c:
            return self.pocket(c)
        if isinstance(c, dict):
            b = self.b.get(c['near'])
            if b is None:
                return None
            q = b.shape.boundary(c['u'])
            ctr = np.zeros(2) if b.kind == 'ellipse' else b.shape.v.mean(0)
            n = (q - ctr) / max(1e-9, np.linalg.norm(q - ctr))
            return to_global(q + n * c['d'], b.pose())
        if c == 'goal':
            return self.xg.copy()
        if c == 'robot':
            return self.x.copy()
        return np.array(c, float)

    def pocket(self, c):
        """a point in one of the bays of a nonconvex body"""
        b = self.b.get(c['pocket'])
        if b is None or b.convex:
            return None
        o = sg.Polygon(b.shape.poly())
        g = geom.hull(o).difference(o.buffer(GP * 1.01, join_style='mitre'))
        g = sorted((x for x in getattr(g, 'geoms', [g]) if x.area > 1e-3), key=lambda x: x.centroid.coords[0])
        if not g:
            return None
        x0, y0, x1, y1 = g[c['k'] % len(g)].bounds
        for u, v in c['uv']:
            q = sg.Point(x0 + u * (x1 - x0), y0 + v * (y1 - y0))
            if g[c['k'] % len(g)].contains(q):
                return to_global(np.array(q.coords[0]), b.pose())
        return to_global(np.array(g[c['k'] % len(g)].representative_point().coords[0]), b.pose())

    def place(self, cands, which):
        for c in cands:
            p = self.cand(c)
            if p is not None and np.all(np.isfinite(p)) and self.general(p):
                setattr(self, which, p)
                return True
        return False

    # ---- plans
    def previous(self, how):
        if how in (None, 'none'):
            return None
        if how == 'latest':
            return self.last.clusters if self.last else None
        if isinstance(how, int):
            return self.plans[-1 - how].clusters if len(self.plans) > how else None
        if how == 'subset':
            return self.last.clusters[::2] if self.last else None
        if how == 'reversed':
            return self.last.clusters[::-1] if self.last else None
        if how == 'mix':
            return [c for p in self.plans[-3:] for c in p.clusters]
        if how == 'empty':
            return []
        raise AssertionError(how)

    def workspace(self, spec):
        if spec is None:
            return None
        k = repr(spec)
        if k not in self.ws_cache:
            self.ws_cache[k] = make_ws(spec)
        return self.ws_cache[k]

    def plan(self, op, cap=6_000_000, expect=()):
        """run one planning step as described by op; returns a Plan"""
        ctx = self.ctx
        p = Plan()
        if not op.get('eps', .2) >= .01:
            raise OutOfDomain('kernel width')
        skip = set(op.get('skip', ()))
        p.names = [n for n in self.b if n not in skip]
        if op.get('rev'):
            p.names.reverse()
        p.obstacles = [self.b[n].ob for n in p.names]
        for w in ('x', 'xg'):
            if not self.general(getattr(self, w)) and op.get('rc'):
                self.place(op['rc'], w)
        p.x, p.xg = self.x.copy(), self.xg.copy()
        p.general = self.general()
        p.op = op
        p.prev = self.previous(op.get('prev'))
        p.prev_plan = self.last if op.get('prev') in ('latest', 'reversed', 'subset') else None
        p.outlines = {n: outline(self.b[n]) for n in p.names}
        p.kernels = {n: kernel(self.b[n]) for n in p.names}
        p.sag = {n: self.b[n].sag() for n in p.names}
        p.ws = self.workspace(op.get('ws'))
        p.budget = op.get('budget')
        kw = {}
        if op.get('ws') is not None:
            kw['workspace'] = p.ws
        if p.budget is not None:
            kw['max_compute_time'] = p.budget
        if p.prev is not None or op.get('prev') not in (None,):
            kw['previous_clusters'] = p.prev
        for a, b in (('mc', 'make_convex'), ('ex', 'exclude_obstacles'), ('vb', 'verbose'), ('tv', 'timing_verbose'), ('hist', 'return_history')):
            if op.get(a):
                kw[b] = True
        if op.get('mi') is not None:
            kw['max_iterations'] = op['mi']
        if 'np' in op:
            np.random.seed(op['np'])
        if op.get('clock') is not None:
            CLOCK.clock = SimClock(op['clock'])
        c = CLOCK.clock
        s0 = MON.steps
        t0 = c.now
        xi, gi = self.x.copy(), self.xg.copy()
        if self.keep is not None:
            self.keep.append(xi)
            self.keep.append(gi)
        p.args = (xi, gi)
        p.obs_arg = list(p.obstacles)
        out = ctx.call(sh().cluster_and_starify, p.obs_arg, xi, gi, op.get('eps', .2), cap=cap, what='cluster_and_starify', **kw)
        p.steps = MON.steps - s0
        c.read()
        p.elapsed = (c.now - t0) * 1000.
        ctx.simtime += max(0., p.elapsed) / 1000.
        with ctx.judging('the returned plan'):
            if op.get('hist'):
                p.clusters, p.timing, p.flag, p.n_iter, p.history = out
            else:
                p.clusters, p.timing, p.flag, p.n_iter = out
                p.history = None
            ctx.ensure(p.flag in (INCOMPLETE, COMPLETE, LATE), 'flag', lambda: repr(p.flag))
            assert isinstance(p.clusters, list)
            byob = {id(o): n for n, o in zip(p.names, p.obstacles)}
            p.members = []
            for cl in p.clusters:
                m = []
                for o in cl.obstacles:
                    ctx.ensure(id(o) in byob, 'foreign-obstacle', lambda: 'cluster %s contains an obstacle that was not passed in' % cl)
                    m.append(byob[id(o)])
                p.members.append(m)
            p.regions = []
            p.comb = []
            for cl in p.clusters:
                r = None
                if cl.cluster_obstacle is not None:
                    r = ctx.call(cl.polygon, what='cluster polygon')
                p.regions.append(r)
                p.comb.append(cl.cluster_obstacle is not None and id(cl.cluster_obstacle) not in byob)
            p.xr = [None if not hasattr(cl.cluster_obstacle, 'xr') else np.asarray(cl.cluster_obstacle.xr(), float).copy() for cl in p.clusters]
            p.cid = [None if cl.cluster_obstacle is None else cl.cluster_obstacle.id() for cl in p.clusters]
            p.kp = [None if cl.kernel_points is None else np.array(cl.kernel_points, float) for cl in p.clusters]
        # a completed plan may re-centre the reference point of an obstacle, inside that obstacle
        for n in p.names:
            b = self.b[n]
            if b.star:
                b.xr = np.asarray(b.ob.xr(frame('o')), float).copy()
        self.plans.append(p)
        self.last = p
        if op.get('lose'):
            self.last = None
        ctx.count('plan')
        ctx.count('flag:%d' % p.flag)
        if p.flag:
            if any(len(m) > 1 for m in p.members):
                ctx.count('plan-with-merged-cluster')
            if any(c and len(m) == 1 for c, m in zip(p.comb, p.members)):
                ctx.count('plan-with-extended-single')
            if p.prev:
                ctx.count('complete-warm-plan')
            if not all(self.b[n].convex for n in p.names):
                ctx.count('plan-with-nonconvex')
                if any(len(m) > 1 and not all(self.b[n].convex for n in m) for m in p.members):
                    ctx.count('plan-merging-nonconvex')
            if not all(self.b[n].star for n in p.names):
                ctx.count('plan-with-unstarshaped')
        ctx.log('plan', p.flag, p.n_iter, sorted(tuple(sorted(m)) for m in p.members), [None if r is None else round(r.area, 6) for r in p.regions])
        ctx.state('plan', p.flag, p.n_iter, tuple(sorted(len(m) for m in p.members)), tuple(sorted(p.comb)), op.get('prev'), bool(op.get('mc')))
        return p

    # ---- judges
    def check_partition(self, p):
        ctx = self.ctx
        allm = sorted(m for ms in p.members for m in ms)
        ctx.ensure(allm == sorted(p.names), 'not-a-partition', lambda: 'clusters hold %s, obstacles are %s' % (p.members, p.names))

    def check_disjoint_cover(self, p):
        ctx = self.ctx
        self.check_partition(p)
        with ctx.judging('regions'):
            for cl, m, r in zip(p.clusters, p.members, p.regions):
                ctx.ensure(r is not None and not r.is_empty, 'no-region', lambda: 'cluster %s of a complete plan has no region' % m)
                ctx.ensure(r.is_valid and r.geom_type == 'Polygon', 'bad-region', lambda: 'region of %s is a %s, valid: %s' % (m, r.geom_type, r.is_valid))
                d = r.hausdorff_distance(cl.cluster_obstacle.polygon())
                ctx.ensure(d < 1e-6, 'region-of-cluster-differs', lambda: 'cluster and its obstacle differ by %g' % d)
                for n in m:
                    lost = p.outlines[n].difference(r.buffer(p.sag[n] + 1e-6)).area
                    ctx.ensure(lost < AREA, 'not-covered', lambda: 'region of %s lacks area %g of obstacle %s' % (m, lost, n))
                    lost = self.b[n].ob.polygon().difference(r.buffer(1e-6)).area
                    ctx.ensure(lost < AREA, 'not-covered', lambda: 'region of %s lacks area %g of obstacle %s' % (m, lost, n))
            for (i, a), (j, b) in itertools.combinations(enumerate(p.regions), 2):
                if a.intersects(b):
                    o = a.intersection(b).area
                    ctx.ensure(o < 1e-8, 'regions-overlap', lambda: 'regions of %s and %s share area %g' % (p.members[i], p.members[j], o))
                ctx.judged()

    def check_exclusion(self, p):
        """x and xg are in general position"""
        ctx = self.ctx
        with ctx.judging('robot and goal against regions'):
            for cl, m, r in zip(p.clusters, p.members, p.regions):
                if r is None:
                    continue
                for what, q in (('robot', p.x), ('goal', p.xg)):
                    pt = sg.Point(q)
                    depth = r.boundary.distance(pt)
                    ctx.ensure(not (r.contains(pt) and depth > 1e-6), 'region-claims-' + what,
                               lambda: '%s %s is inside the region of %s by %g' % (what, q, m, depth))
                    if depth > 1e-6:
                        ctx.ensure(not ctx.call(cl.cluster_obstacle.interior_point, q.copy(), what='interior_point'), 'region-claims-' + what,
                                   lambda: '%s %s is an interior point of the region of %s' % (what, q, m))

    def check_star(self, p, kernel=True):
        ctx = self.ctx
        with ctx.judging('visibility in regions'):
            for cl, m, r, xr, kp in zip(p.clusters, p.members, p.regions, p.xr, p.kp):
                tol = max([p.sag[n] for n in m]) + 1e-3
                fat = r.buffer(tol, quad_segs=4)
                fat = sg.Polygon(fat.exterior) if fat.geom_type == 'Polygon' and sum(sg.Polygon(i).area for i in fat.interiors) < AREA else fat
                shapely.prepare(fat)
                v = np.asarray(r.exterior.coords)
                tgt = np.vstack((v[:-1], (v[:-1] + v[1:]) / 2))
                src = [('reference point', xr)]
                if kernel:
                    ctx.ensure(kp is not None and kp.shape == (3, 2), 'kernel-points', lambda: 'cluster %s has kernel points %s' % (m, kp))
                    side = max(np.linalg.norm(kp[i] - kp[i - 1]) for i in range(3))
                    eps = p.op.get('eps', .2)
                    ctx.ensure(side <= eps * (1 + 1e-9) + 1e-12, 'kernel-width', lambda: 'kernel triangle of %s has side %g > %g' % (m, side, eps))
                    c = kp.mean(0)
                    ctx.ensure(np.linalg.norm(c - xr) < 1e-6, 'kernel-centre', lambda: 'kernel triangle of %s is around %s, reference point %s' % (m, c, xr))
                    # around it: the centre is inside the triangle or the triangle is degenerate
                    src += [('kernel point', k) for k in kp]
                for what, k in src:
                    if not fat.covers(sg.Point(k)):
                        ctx.viol('reference-outside', '%s %s is outside the region of %s' % (what, k, m))
                    ls = shapely.linestrings(np.stack((np.broadcast_to(k, tgt.shape), tgt), 1))
                    ok = shapely.covers(fat, ls)
                    ctx.judged(len(tgt))
                    if not ok.all():
                        i = int(np.argmin(ok))
                        ctx.viol('not-starshaped', 'from %s %s the point %s of the region of %s is not visible (%g outside)' %
                                 (what, k, tgt[i], m, ls[i].difference(fat).length))

    def check_singletons(self, p):
        """the result of an incomplete plan"""
        ctx = self.ctx
        ctx.ensure(sorted(p.members) == sorted([n] for n in p.names), 'incomplete-not-singletons', lambda: 'flag 0 with clusters %s' % p.members)
        with ctx.judging('incomplete plan'):
            for cl, m, r in zip(p.clusters, p.members, p.regions):
                ctx.ensure(r is not None, 'no-region', lambda: 'singleton %s has no region' % m)
                h = r.hausdorff_distance(p.outlines[m[0]])
                ctx.ensure(h <= p.sag[m[0]] + 1e-6, 'incomplete-region', lambda: 'region of singleton %s differs from the obstacle by %g' % (m, h))

    def check_all(self, p):
        """every guarantee of the flag a plan came with"""
        if p.flag == INCOMPLETE:
            self.check_singletons(p)
        else:
            self.check_disjoint_cover(p)
            if p.general:
                self.check_exclusion(p)
            self.check_star(p)

    # ---- events
    def event(self, op):
        k = op['op']
        if k == 'robot':
            return self.place(op['c'], 'x')
        if k == 'goal':
            return self.place(op['c'], 'xg')
        if k == 'toward':
            d = self.xg - self.x
            L = np.linalg.norm(d)
            p = self.x + d / L * min(L, op['d']) if L > 0 else self.x
            if self.general(p):
                self.x = p
                return True
            return False
        return super().event(op)


def branch(fn):
    """what fn() would do from here, in a forked twin of the whole simulation: ('ok', value) | ('viol', kind, msg) | ('raised', type, msg) | ('skip', msg)"""
    def body():
        try:
            return ('ok', fn())
        except Violation as v:
            return ('viol', v.kind, v.msg)
        except LibRaised as e:
            return ('raised', type(e.exc).__name__, str(e))
        except OutOfDomain as e:
            return ('skip', str(e))
    r = forked(body)
    if isinstance(r, dict):
        if r['status'] == 'hang':
            raise Violation('hang', 'a branch of the simulation did not come back')
        raise RuntimeError('branch: %s' % r['msg'])
    return r


def digest(p, ids=True):
    """everything a caller can see of a plan, bit for bit"""
    return (p.flag, p.n_iter, [tuple(m) for m in p.members], [None if r is None else r.wkb for r in p.regions],
            [None if k is None else k.tobytes() for k in p.kp], [None if x is None else x.tobytes() for x in p.xr],
            p.cid if ids else None, [str(c) for c in p.clusters])


# ------------------------------------------------------------------ generators
KINDS = ('ellipse', 'ellipse', 'ellipse', 'spoly', 'spoly', 'spoly', 'star', 'star', 'npoly', 'poly')


def small_nonconvex(rng, op, hi):
    """nonconvex obstacles of the size of the others"""
    if op['kind'] == 'poly':
        op['v'], op['c'] = geom.gen_simple(rng, .6, 1.2 * hi)
        op['convex'] = False
        return
    for _ in range(50):
        v = geom.resize(rng, op['v'], .6, 1.2 * hi)
        k = geom.RefPoly(v).kernel_poly().buffer(-.03)
        if k.geom_type == 'Polygon' and not k.is_empty and min(math.dist(v[i - 1], v[i]) for i in range(len(v))) > .05:
            break
        op['v'], _ = geom.gen_star(rng)
    op['v'], op['convex'] = v, geom.is_convex_ccw(geom.RefPoly(v).v)
    op['c'] = geom.kernel_point(rng, v)
    if op.get('xr') is not None:
        op['xr'] = op['c']


def gen_obstacle(rng, name, spread, lo=.25, hi=1.5, mmk=('static', 'static', 'sin', 'sin', 'int', 'wp'), kinds=KINDS):
    op = gen_spawn(rng, name, kinds, mmk, lo, hi)
    if not op.get('convex', True):
        small_nonconvex(rng, op, hi)
    if op['kind'] == 'ellipse':
        op['n_pol'] = rng.choice([10, 20, 20, 20, 30])
    m = op['mm']
    f = spread / 8.
    m['pos'] = [rnd(c * f) for c in m['pos']]
    if m['m'] == 'sin':
        m['m1'], m['m2'] = rnd(m['m1'] * .5), rnd(m['m2'] * .5)
    if m['m'] == 'int':
        m['tp'] = [[t, [rnd(c * f) for c in p]] for t, p in m['tp']]
    if m['m'] == 'wp':
        m['wps'] = [[rnd(c * f) for c in p] for p in m['wps']]
    return op


def gen_cands(rng, names, spread, n=5):
    out = []
    for _ in range(n):
        if rng.random() < .12 and names:
            out.append(dict(pocket=rng.choice(names), k=rng.randrange(3), uv=[[rnd(rng.random()), rnd(rng.random())] for _ in range(6)]))
        elif rng.random() < .4 and names:
            out.append(dict(near=rng.choice(names), u=rnd(rng.random()), d=rnd(10 ** rng.uniform(-1.6, 0))))
        else:
            out.append([rnd(rng.uniform(-1.3, 1.3) * spread), rnd(rng.uniform(-1.3, 1.3) * spread)])
    out += [[rnd(rng.choice([-1, 1]) * 3 * spread), rnd(rng.uniform(-1, 1) * spread)]]
    return out


def gen_groups(rng, spread=None):
    """groups whose members share the group centre; members of a group translate together"""
    ops = []
    K = rng.randrange(1, 5)
    D = rng.uniform(3., 6.)
    cells = [(i, j) for i in range(-1, 2) for j in range(-1, 2)]
    rng.shuffle(cells)
    k = 0
    for g in range(K):
        c = [cells[g][0] * D + rng.uniform(-.3, .3), cells[g][1] * D + rng.uniform(-.3, .3)]
        v = [rnd(rng.uniform(-.3, .3)), rnd(rng.uniform(-.3, .3)), rng.choice([0, rnd(rng.uniform(2, 20))]), rng.choice([0, rnd(rng.uniform(2, 20))])]
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            op = gen_spawn(rng, 'b%d' % k, ('ellipse', 'ellipse', 'spoly', 'spoly', 'star'), ('static',), .4, 1.2)
            if not op.get('convex', True):
                small_nonconvex(rng, op, 1.2)
            rot = op['mm']['rot']
            if op['kind'] == 'ellipse':
                r, t = rng.uniform(0, .75), rng.uniform(0, 2 * math.pi)
                q = [op['a'][0] * r * math.cos(t), op['a'][1] * r * math.sin(t)]
                op['n_pol'] = rng.choice([12, 20, 20, 30])
            elif not op['convex']:
                q = op['c']
            else:
                q = geom.interior_point(rng, op['v'])
            pos = np.array(c) - geom.R(rot) @ np.array(q)
            op['mm'] = dict(m='sin', pos=[rnd(pos[0], 9), rnd(pos[1], 9)], rot=rot, cart=True, m1=v[0], p1=v[2], m2=v[1], p2=v[3])
            op['group'] = g
            ops.append(op)
            k += 1
    rng.shuffle(ops)
    return ops


def gen_bays(rng):
    """angled obstacles (one nonconvex or two crossing ones) and small obstacles in the bays they leave"""
    ops = []
    for g in range(rng.choice([1, 1, 2])):
        s, rot = rng.uniform(.8, 1.8), rng.uniform(-3.1, 3.1)
        at = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1)]) if g == 0 else np.array([rng.choice([-6., 6.]), rng.uniform(-2, 2)])
        R = geom.R(rot)
        vel = [rnd(rng.uniform(-.3, .3)), rnd(rng.uniform(-.3, .3)), rng.choice([0, 7., 15.]), 0]

        def body(d, q, r=0.):
            z = at + R @ (np.asarray(q) * s)
            ops.append(dict(op='spawn', id='b%d' % len(ops), xr=None,
                            mm=dict(m='sin', pos=[rnd(z[0]), rnd(z[1])], rot=rnd(rot + r), cart=True, m1=vel[0], p1=vel[2], m2=vel[1], p2=vel[3]), **d))
        w, h, t = rng.uniform(1.2, 2.2), rng.uniform(1., 2.), rng.uniform(.4, .9)
        if rng.random() < .6:
            v = [[rnd(x * s), rnd(y * s)] for x, y in ((-w, h), (0, -t), (w, h), (0, 0))]
            c = [0., rnd(-t * s / 2)]
            body(dict(kind='spoly', v=v, c=c, convex=False), (0, 0))
            ops[-1]['xr'] = c if rng.random() < .7 else None
            if rng.random() < .3:
                body(dict(kind='ellipse', a=[rnd(.4 * s), rnd(.4 * s)], n_pol=20), (0, -t / 2))
        else:
            L, a = math.hypot(w, h) / 2, math.atan2(h, w)
            for sg_ in (1, -1):
                body(dict(kind='ellipse', a=[rnd(L * 1.1 * s), rnd(.2 * s)], n_pol=rng.choice([14, 20, 30])), (sg_ * w / 2, h / 2), sg_ * a)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            y = rng.uniform(.5, .85) * h
            x = rng.uniform(-.6, .6) * (w / h * y - .3)
            body(dict(kind='ellipse', a=[rnd(rng.uniform(.08, .15) * s), rnd(rng.uniform(.08, .15) * s)], n_pol=12), (x, y))
    return ops


def gen_ws(rng, spread):
    r = rng.random()
    if r < .35:
        return dict(a=[rnd(rng.uniform(.7, 1.5) * spread), rnd(rng.uniform(.7, 1.5) * spread)], pos=[rnd(rng.uniform(-1, 1)), rnd(rng.uniform(-1, 1))],
                    rot=rnd(rng.uniform(0, 3)))
    if r < .6:
        s = rng.uniform(.7, 1.6) * spread
        return dict(v=[[rnd(-s), rnd(-s)], [rnd(s), rnd(-s * .8)], [rnd(s), rnd(s)], [rnd(-s * .9), rnd(s)]])
    return dict(a=[200., 150.], pos=[0., 0.])


def gen_plan(rng, names, spread, prof):
    op = dict(op='plan', eps=rng.choice([.02, .1, .2, .2, .5, 1.]), rc=gen_cands(rng, names, spread), np=rng.getrandbits(30))
    if rng.random() < prof.get('ws', .15):
        op['ws'] = gen_ws(rng, spread)
    if rng.random() < prof.get('mc', .3):
        op['mc'] = True
    if rng.random() < prof.get('ex', .15):
        op['ex'] = True
    if rng.random() < prof.get('hist', .1):
        op['hist'] = True
    if rng.random() < prof.get('vb', .1):
        op['vb'] = op['tv'] = True
    if rng.random() < prof.get('rev', .05):
        op['rev'] = True
    op['prev'] = rng.choice(prof.get('prev', ['latest', 'latest', 'latest', 'latest', None, 0, 1, 2, 'mix', 'subset', 'reversed', 'empty']))
    if rng.random() < prof.get('mi', .1):
        op['mi'] = rng.randrange(1, 5)
    if rng.random() < prof.get('skip', .1) and len(names) > 1:
        op['skip'] = [rng.choice(names)]
    if rng.random() < prof.get('lose', .06):
        op['lose'] = True
    r = rng.random()
    clock = {}
    if r < .3:
        clock = dict(rate=rng.choice([1e-7, 1e-6, 1e-5]), cost=rng.choice([0., 1e-6]))
    elif r < .4:
        clock = dict(rate=1e-6, quantum=rng.choice([1e-3, .015, 1.]))
    elif r < .5:
        clock = dict(rate=1e-6, jumps=[[rng.choice('rs'), int(10 ** rng.uniform(0, 4)), rnd(rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-2, 4))]
                                       for _ in range(rng.randrange(1, 4))])
    op['clock'] = clock
    if rng.random() < prof.get('budget', .1):
        op['budget'] = rng.choice([0., rnd(10 ** rng.uniform(-2, 3)), 1e6])
        if not clock:
            op['clock'] = dict(rate=10 ** rng.uniform(-8, -5.5))
    return op


def gen_swap(rng, name, ops, spread, groups):
    """the obstacle with this identifier is perceived anew: a copy, a grown one, or a body of another shape in its place or elsewhere"""
    old = [o for o in ops if (o['op'] == 'spawn' or o['op'] == 'swap' and o['how'] == 'new') and o['id'] == name][-1]
    old = old.get('spec', old)
    r = rng.random()
    op = dict(op='swap', id=name, last=rng.random() < .2)
    if r < .2:
        return dict(op, how='copy')
    if r < .45:
        # grown or shrunk
        f = rng.choice([rng.uniform(.6, .95), rng.uniform(1.05, 1.5)])
        spec = copy.deepcopy(old.get('spec', old))
        for k in ('a', 'xr', 'c'):
            if spec.get(k) is not None:
                spec[k] = [rnd(c * f) for c in spec[k]]
        if 'v' in spec:
            spec['v'] = [[rnd(c * f) for c in q] for q in spec['v']]
        return dict(op, how='new', spec=spec)
    spec = gen_obstacle(rng, name, spread)
    if groups or rng.random() < .7:
        spec['mm'] = copy.deepcopy(old['mm'])
    return dict(op, how='new', spec=spec)


def gen_loop(rng, tier, prof):
    """scene + control loop"""
    ops = []
    groups = rng.random() < prof.get('groups', .15)
    if rng.random() < prof.get('bays', 0.):
        groups, spread = True, 3.
        ops += gen_bays(rng)
    elif groups:
        ops += gen_groups(rng)
        spread = 6.
    else:
        n = rng.choice(prof.get('n', [1, 2, 3, 3, 4, 4, 5, 5, 6, 7]))
        spread = rng.choice([1.5, 2.2, 3., 4.]) if n < 6 else rng.choice([2.5, 3.5, 5.])
        kinds = prof.get('kinds', KINDS) if rng.random() < .7 else ('ellipse', 'spoly')
        ops += [gen_obstacle(rng, 'b%d' % i, spread, kinds=kinds) for i in range(n)]
    if rng.random() < prof.get('nid', .1):
        for o, i in zip(ops, sorted(rng.sample([3, 4, 10, 11, 12, 13, 20, 21, 22, 23, 31, 32, 33, 101, 102, 110, 111, 112, 120, 121, 122, 123], len(ops)))):
            o['nid'] = i
    names = [o['id'] for o in ops]
    ops.append(dict(op='robot', c=gen_cands(rng, names, spread)))
    ops.append(dict(op='goal', c=gen_cands(rng, names, spread)))
    steps = rng.randrange(*prof.get('steps', (2, 7)))
    if tier == 'thorough' and rng.random() < .3:
        steps *= 3
    sticky = gen_plan(rng, names or ['b0'], spread, prof)
    for s in range(steps):
        if s:
            r = rng.random()
            if r < prof.get('still', .2):
                if rng.random() < .2 and not groups and names:
                    # turned on the spot, or put elsewhere, and nothing else
                    n = rng.choice(names)
                    ops.append(dict(op='set_rot', id=n, r=rnd(rng.uniform(-4, 4))) if rng.random() < .6 else
                               dict(op='set_pos', id=n, p=[rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))]))
            else:
                d = rng.random()
                op = dict(op='tick', dt=rnd(rng.uniform(.02, .3)) if d < .75 else rnd(rng.uniform(.3, 2.)) if d < .95 else 0.)
                if rng.random() < .15:
                    op['who'] = [n for n in names if rng.random() < .5]
                ops.append(op)
                if rng.random() < .5:
                    ops.append(dict(op='toward', d=rnd(rng.uniform(.02, .5))))
                if rng.random() < .15:
                    ops.append(dict(op='robot', c=gen_cands(rng, names, spread)))
                if rng.random() < .1:
                    ops.append(dict(op='goal', c=gen_cands(rng, names, spread)))
                if rng.random() < .05:
                    ops.append(dict(op='robot', c=['goal']))
                if rng.random() < .08 and not groups and names:
                    ops.append(dict(op='set_pos', id=rng.choice(names), p=[rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))]))
                if rng.random() < .08 and not groups and names:
                    ops.append(dict(op='set_rot', id=rng.choice(names), r=rnd(rng.uniform(-4, 4))))
        if s and names and len(names) < 9 and rng.random() < prof.get('spawn', .06):
            op = gen_obstacle(rng, 'b%d' % (len(names) + 20), spread)
            if groups:
                op['mm'] = dict(m='static', pos=[rnd(rng.choice([-1, 1]) * 4 * spread), rnd(rng.uniform(-1, 1) * spread)], rot=0.)
            names.append(op['id'])
            ops.append(op)
        if s and names and rng.random() < prof.get('swap', .12):
            ops.append(gen_swap(rng, rng.choice(names), ops, spread, groups))
        op = gen_plan(rng, names or ['b0'], spread, prof)
        if rng.random() < prof.get('sticky', .6):
            for k in ('eps', 'ws', 'mc', 'ex'):
                op.pop(k, None)
                if k in sticky:
                    op[k] = sticky[k]
        ops.append(op)
    return ops


FAULTS = (('lose', 'plan-lost'), ('skip', 'obstacle-dropped-out'))


def count_faults(ctx, op):
    if op['op'] == 'plan':
        pv = op.get('prev')
        if isinstance(pv, int) and pv:
            ctx.count('fault:stale-plan')
        if pv in ('mix', 'subset', 'reversed', 'empty'):
            ctx.count('fault:mangled-plan')
        if op.get('lose'):
            ctx.count('fault:plan-lost')
        if op.get('skip'):
            ctx.count('fault:obstacle-not-seen')
        if op.get('mi') is not None:
            ctx.count('fault:iteration-cap')
        if op.get('budget') is not None:
            ctx.count('fault:time-budget')
        for j in (op.get('clock') or {}).get('jumps', []):
            ctx.count('fault:clock-jump-back' if j[2] < 0 else 'fault:clock-stall')
        if (op.get('clock') or {}).get('quantum'):
            ctx.count('fault:coarse-clock')
        if not (op.get('clock') or {}):
            ctx.count('fault:frozen-clock')
    elif op['op'] == 'swap':
        ctx.count('fault:obstacle-replaced')
    elif op['op'] == 'tick' and op.get('who') is not None:
        ctx.count('fault:missed-tick')


def run_loop(trace, ctx, after_plan, world=None, before_plan=None, raising_ok=False):
    """raising_ok: that the planner raises is judged by another property; the history then ends here"""
    CLOCK.clock = SimClock()
    w = world or PlanWorld(ctx)
    for op in trace['ops']:
        if op['op'] == 'plan':
            count_faults(ctx, op)
            if before_plan:
                before_plan(w, op)
            try:
                p = w.plan(op)
            except LibRaised as e:
                if raising_ok and e.where.startswith('cluster_and_starify'):
                    ctx.count('planner-raised')
                    return w
                raise
            after_plan(w, p)
        elif op['op'] == 'query':
            for q in op['q']:
                w.query(op['id'], q)
        elif w.event(op):
            ctx.count('event:' + op['op'])
            count_faults(ctx, op)
    return w
