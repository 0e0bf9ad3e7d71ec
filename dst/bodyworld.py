"""Simulated world of moving obstacles: events (ticks, re-posing, reference moves, copies, dilations) and queries, with an
independent reference model of every body. Used by the geometry, motion, aliasing, drawing and fault properties."""
import math

import numpy as np
import shapely
import shapely.geometry as sg

from . import geom
from .geom import RefEllipse, RefPoly, to_global, to_local, rnd

TOL = 1e-6


def lib():
    import obstacles
    from obstacles import motion_model
    return obstacles, motion_model


# ------------------------------------------------------------------ motion reference
class RefMotion:
    def __init__(self, spec):
        self.s = spec
        self.pos = np.array(spec.get('pos', [0., 0.]), float)
        self.rot = float(spec.get('rot', 0.))
        self.t = 0.
        if spec['m'] == 'int':
            self.pts = np.array([spec['pos']] + [p for _, p in spec['tp']], float)
            self.times = np.cumsum([0.] + [t for t, _ in spec['tp']])
        if spec['m'] == 'wp':
            self.wps = np.array([spec['pos']] + spec['wps'], float)
            self.idx = 0

    def vel(self):
        s = self.s
        m = s['m']
        if m == 'static':
            return np.zeros(2), 0.
        if m == 'sin':
            w1 = 2 * math.pi / s['p1'] if s['p1'] else 0.
            w2 = 2 * math.pi / s['p2'] if s['p2'] else 0.
            v1, v2 = s['m1'] * math.cos(w1 * self.t), s['m2'] * math.cos(w2 * self.t)
            if s['cart']:
                return np.array([v1, v2]), 0.
            return np.array([v1 * math.cos(self.rot), v1 * math.sin(self.rot)]), v2
        if m == 'int':
            if self.t >= self.times[-1]:
                return np.zeros(2), 0.
            i = int(np.searchsorted(self.times, self.t, side='right'))
            return (self.pts[i] - self.pts[i - 1]) / (self.times[i] - self.times[i - 1]), 0.
        if m == 'wp':
            while self.idx < len(self.wps):
                d = self.wps[self.idx] - self.pos
                L = float(np.linalg.norm(d))
                if L < s['th']:
                    self.idx += 1
                    continue
                return s['vel'] * d / L, 0.
            return np.zeros(2), 0.
        raise AssertionError(m)

    def tick(self, dt, vel=None):
        v, w = self.vel() if vel is None else vel
        self.pos = self.pos + v * dt
        self.rot = self.rot + w * dt
        self.t += dt

    def pose(self):
        return (float(self.pos[0]), float(self.pos[1]), float(self.rot))


def make_mm(spec, keep=None):
    """Library motion model; arrays handed in are appended to keep (for the aliasing adversary)."""
    if spec is None:
        return None
    _, mm = lib()

    def arr(x):
        a = np.array(x)        # whole numbers stay integers, as a user would write them
        if keep is not None:
            keep.append(a)
        return a
    m = spec['m']
    if spec.get('dflt'):
        # start at the default pose, i.e. at the origin
        args = dict(x1_mag=spec.get('m1'), x1_period=spec.get('p1'), x2_mag=spec.get('m2'), x2_period=spec.get('p2'))
        return mm.Static() if m == 'static' else mm.SinusVelocity(**{k: v for k, v in args.items() if v}, **({} if spec['cart'] else dict(cartesian_coords=False)))
    if m == 'static':
        return mm.Static(arr(spec['pos']), spec['rot'])
    if m == 'sin':
        return mm.SinusVelocity(arr(spec['pos']), spec['rot'], cartesian_coords=spec['cart'], x1_mag=spec['m1'], x1_period=spec['p1'],
                                x2_mag=spec['m2'], x2_period=spec['p2'])
    if m == 'int':
        return mm.Interval(arr(spec['pos']), [(t, arr(p)) for t, p in spec['tp']])
    if m == 'wp':
        return mm.Waypoints(arr(spec['pos']), [arr(p) for p in spec['wps']], spec['vel'], *([] if spec['th'] == .2 else [spec['th']]))
    raise AssertionError(m)


def gen_mm(rng, kinds=('static', 'sin', 'sin', 'int', 'wp', None), spread=8.):
    k = rng.choice(list(kinds))
    if k is None:
        return None
    pos = [rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))]
    rot = rng.choice([0., 0., rnd(rng.uniform(-4, 4)), rnd(rng.uniform(-4, 4)), rnd(math.pi / 2, 15), rnd(rng.uniform(-30, 30))])
    if k == 'static':
        return dict(m='static', pos=pos, rot=rot)
    if k == 'sin':
        return dict(m='sin', pos=pos, rot=rot, cart=rng.random() < .5, m1=rnd(rng.uniform(-2, 2)), m2=rnd(rng.uniform(-2, 2)),
                    p1=rng.choice([0, rnd(rng.uniform(.5, 20))]), p2=rng.choice([0, rnd(rng.uniform(.5, 20))]))
    if k == 'int':
        return dict(m='int', pos=pos, tp=[[rng.randrange(1, 9) / 4, [rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))]]
                                          for _ in range(rng.randrange(1, 5))])
    if k == 'wp':
        return dict(m='wp', pos=pos, wps=[[rnd(rng.uniform(-spread, spread)), rnd(rng.uniform(-spread, spread))] for _ in range(rng.randrange(1, 5))],
                    vel=rnd(rng.uniform(.1, 2)), th=rnd(rng.uniform(.1, .4)))


# ------------------------------------------------------------------ bodies
class Body:
    def __init__(self, ob, kind, shape, xr, mm, ref, n_pol=None, pad=0., convex=True, keep=None):
        self.ob, self.kind, self.shape, self.xr, self.mm, self.ref = ob, kind, shape, xr, mm, ref
        self.n_pol, self.pad, self.convex = n_pol, pad, convex
        self.first_poly = None
        self.first_kern = None
        self.keep = keep if keep is not None else []

    @property
    def star(self):
        return self.kind != 'poly'

    def sag(self):
        if self.kind == 'ellipse':
            return float(max(self.shape.a)) * (1 - math.cos(math.pi / self.n_pol)) + 1.5e-3
        return 0.

    def pose(self):
        """the pose the obstacle reports"""
        if self.ref is None:
            return (0., 0., 0.)
        p = np.asarray(self.ob.pos(), float)
        return (float(p[0]), float(p[1]), float(self.ob.rot()))

    def refpose(self):
        return (0., 0., 0.) if self.ref is None else self.ref.pose()


def valid_shape(op):
    if op['kind'] == 'ellipse':
        ok = min(op['a']) >= .05 and (op.get('xr') is None or RefEllipse(op['a']).side(op['xr']) < -.01)
    else:
        p = sg.Polygon(op['v'])
        ok = p.is_valid and p.area > .01 and min(np.linalg.norm(np.subtract(op['v'][i - 1], op['v'][i])) for i in range(len(op['v']))) > .01
        ok = ok and (op.get('xr') is None or RefPoly(op['v']).kernel_side(op['xr']) < -.01)
        if ok and op.get('convex', True):
            ok = geom.is_convex_ccw(RefPoly(op['v']).v)
        elif ok and op['kind'] == 'spoly':
            k = RefPoly(op['v']).kernel_poly()
            ok = k.geom_type == 'Polygon' and k.area > 5e-4
    m = op.get('mm')
    if ok and m is not None and m['m'] == 'int':
        ok = all(t > 0 for t, _ in m['tp'])
    if ok and m is not None and m['m'] == 'wp':
        ok = m['vel'] > 0 and m['th'] > 0
    return ok


def make_body(op, keep=None):
    obs, _ = lib()
    if not valid_shape(op):
        from .core import OutOfDomain
        raise OutOfDomain('shape')
    mm = make_mm(op.get('mm'), keep)
    ref = RefMotion(op['mm']) if op.get('mm') else None
    idm = op.get('idm', 'new')

    def arr(x):
        a = np.array(x, float)
        if keep is not None:
            keep.append(a)
        return a
    if op['kind'] == 'ellipse':
        kw = {} if op.get('xr') is None else dict(xr=arr(op['xr']))
        ob = obs.Ellipse(arr(op['a']), n_pol=op['n_pol'], motion_model=mm, id=idm, name=op.get('name'), **kw)
        sh = RefEllipse(op['a'])
        xr = np.array(op['xr'] if op.get('xr') is not None else [0., 0.], float)
        return Body(ob, 'ellipse', sh, xr, mm, ref, n_pol=op['n_pol'])
    sh = RefPoly(op['v'], convex=op.get('convex', True))
    if op['kind'] == 'poly':
        ob = obs.Polygon(arr(op['v']), motion_model=mm, id=idm, name=op.get('name'))
        return Body(ob, 'poly', sh, None, mm, ref, convex=sh.convex)
    kw = {} if op.get('xr') is None else dict(xr=arr(op['xr']))
    ob = obs.StarshapedPolygon(arr(op['v']), motion_model=mm, id=idm, name=op.get('name'), **kw)
    xr = np.array(op['xr'], float) if op.get('xr') is not None else None
    return Body(ob, 'spoly', sh, xr, mm, ref, convex=sh.convex)


def gen_spawn(rng, name, kinds=('ellipse', 'spoly', 'spoly', 'poly', 'star'), mmk=('static', 'sin', 'sin', 'int', 'wp', None), lo=.3, hi=2.):
    k = rng.choice(list(kinds))
    op = dict(op='spawn', id=name, mm=gen_mm(rng, mmk))
    if k == 'npoly':
        v, _ = geom.gen_star(rng)
        op.update(kind='poly', v=v, c=_, convex=geom.is_convex_ccw(RefPoly(v).v))
    elif k == 'ellipse':
        a = [rnd(rng.uniform(lo, hi)), rnd(rng.uniform(lo, hi))]
        if rng.random() < .15:
            a[1] = a[0]
        op.update(kind='ellipse', a=a, n_pol=rng.choice([8, 12, 20, 20, 40]), xr=None)
        if rng.random() < .5:
            r, t = rng.uniform(0, .7), rng.uniform(0, 2 * math.pi)
            op['xr'] = [rnd(a[0] * r * math.cos(t)), rnd(a[1] * r * math.sin(t))]
    elif k == 'star':
        v, c = geom.gen_star(rng)
        op.update(kind='spoly', v=v, xr=c, c=c, convex=geom.is_convex_ccw(RefPoly(v).v))
        if rng.random() < .2:
            op['xr'] = None
    else:
        v = geom.gen_convex(rng, lo, hi)
        op.update(kind=k, v=v, convex=True)
        if k == 'spoly':
            op['xr'] = geom.interior_point(rng, v) if rng.random() < .6 else None
    return op


def gen_point(rng, sp, near=.5):
    """a query point in the obstacle frame of a spawned shape: inside, close to the boundary, outside, far, or special"""
    r = rng.random()
    if sp['kind'] == 'ellipse':
        a = sp['a']
        t = rng.choice([rng.uniform(0, 2 * math.pi), rng.uniform(0, 2 * math.pi), rng.randrange(8) * math.pi / 4])
        c = [0., 0.]
        b = [a[0] * math.cos(t), a[1] * math.sin(t)]
    else:
        v = sp['v']
        i = rng.randrange(len(v))
        u = rng.choice([rng.random(), rng.random(), .5])
        b = [v[i][0] * (1 - u) + v[(i + 1) % len(v)][0] * u, v[i][1] * (1 - u) + v[(i + 1) % len(v)][1] * u]
        c = [sum(p[0] for p in v) / len(v), sum(p[1] for p in v) / len(v)]
        if not sp.get('convex', True):
            c = sp['c']
    if r < .25:
        f = rng.uniform(.05, .97)
    elif r < .5:
        f = 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1)
    elif r < .85:
        f = rng.uniform(1.02, 4)
    elif r < .93:
        f = rng.uniform(4, 60)
    else:
        # axis-aligned with the centre: vertical, horizontal and very steep rays
        s = rng.choice([-1, 1]) * rng.uniform(.1, 4)
        e = rng.choice([0., 0., 1e-5, -1e-5, 3e-3])
        return [rnd(c[0] + e, 9), rnd(c[1] + s)] if rng.random() < .7 else [rnd(c[0] + s), rnd(c[1] + e, 9)]
    return [rnd(c[0] + f * (b[0] - c[0])), rnd(c[1] + f * (b[1] - c[1]))]


FR = {'g': 'GLOBAL', 'o': 'OBSTACLE'}


def frame(f):
    obs, _ = lib()
    return getattr(obs.Frame, FR[f])


def frames(q, *keys, dflt='g'):
    """frame arguments of a query; about half of those that have their default value are left out"""
    f = [q.get(k, dflt) for k in keys]
    if len(repr(q)) % 2:
        while f and f[-1] == dflt:
            f.pop()
    return [frame(x) for x in f]


class Keeper:
    """Arrays that crossed the interface: [array, copy, direction]. A scribbled array is no longer compared."""

    def __init__(self):
        self.items = []

    def append(self, a, way='in'):
        if isinstance(a, np.ndarray) and a.size:
            self.items.append([a, a.copy(), way])

    def check(self, ctx):
        for a, c, way in self.items:
            if c is not None:
                ctx.ensure(np.array_equal(a, c), 'changed-' + way, lambda: 'array handed %s changed from %s to %s' % (way, c, a))

    def scribble(self, i, val):
        if not self.items:
            return None
        it = self.items[i % len(self.items)]
        if not it[0].flags.writeable:
            return None
        it[0][...] = val
        it[1] = None
        return it[2]


class World:
    def __init__(self, ctx, keep=False):
        self.ctx = ctx
        self.b = {}
        self.time = 0.
        self.keep = Keeper() if keep else None
        self.ids = {}
        self.gone = []

    # ---- events
    def event(self, op):
        """apply a non-query event to library and reference; returns False if it does not apply"""
        ctx = self.ctx
        k = op['op']
        if k == 'spawn':
            if op['id'] in self.b:
                return False
            if op.get('nid'):
                # others used up identifiers in between
                Ellipse = lib()[0].Ellipse
                while ctx.call(Ellipse, [1., 1.], what='construct').id() < op['nid'] - 1:
                    pass
            self.b[op['id']] = ctx.call(make_body, op, self.keep, what='construct')
        elif k == 'swap':
            # what carries this identifier is now something else: perceived anew, grown, or of another shape
            b = self.b.get(op['id'])
            if b is None:
                return False
            self.gone.append(b)
            nid = b.ob.id()
            if op['how'] == 'new':
                n = ctx.call(make_body, dict(op['spec'], idm=nid), self.keep, what='construct')
            else:
                n = self.clone(b, dict(op='copy', idm='duplicate', mm=op.get('mm')))
            if op.get('last'):
                del self.b[op['id']]
            self.b[op['id']] = n
            ctx.ensure(n.ob.id() == nid, 'identifier', lambda: 'obstacle made with identifier %s has %s' % (nid, n.ob.id()))
        elif k == 'tick':
            ctx.simtime += op['dt']
            self.time += op['dt']
            for n, b in self.b.items():
                if op.get('who') is not None and n not in op['who']:
                    continue
                v = None
                if b.ref is not None and b.ref.s['m'] == 'int':
                    # how it returns after overshooting the timetable is its own choice: follow the reported velocity
                    v = np.array(ctx.call(b.mm.lin_vel, what='lin_vel'), float), 0.
                ctx.call(b.ob.move, op['dt'], what='move')
                if b.ref is not None:
                    b.ref.tick(op['dt'], v)
            return True
        else:
            b = self.b.get(op.get('id'))
            if b is None:
                return False
            if k == 'set_mm':
                mm = make_mm(op['mm'], self.keep)
                ctx.call(b.ob.set_motion_model, mm, what='set_motion_model')
                b.mm, b.ref = mm, (RefMotion(op['mm']) if op['mm'] else None)
            elif k == 'set_pos':
                if b.mm is None or b.ref.s['m'] in ('int', 'wp'):
                    return False
                p = np.array(op['p'])
                if self.keep is not None:
                    self.keep.append(p)
                ctx.call(b.mm.set_pos, p, what='set_pos')
                b.ref.pos = np.array(op['p'], float)
            elif k == 'nudge':
                # put and turned very slightly, or so that the new pose resembles the old one
                if b.mm is None or b.ref.s['m'] in ('int', 'wp'):
                    return False
                z = np.array(b.ref.pos[::-1] if op.get('mirror') else b.ref.pos, float) + op['d']
                if op['d'] != [0., 0.] or op.get('mirror'):
                    ctx.call(b.mm.set_pos, z.copy(), what='set_pos')
                    b.ref.pos = z
                if op['r']:
                    ctx.call(b.mm.set_rot, b.ref.rot + op['r'], what='set_rot')
                    b.ref.rot = b.ref.rot + op['r']
            elif k == 'set_rot':
                if b.mm is None:
                    return False
                ctx.call(b.mm.set_rot, op['r'], what='set_rot')
                b.ref.rot = float(op['r'])
            elif k == 'set_xr':
                if not b.star:
                    return False
                p = np.array(op['p'], float)
                if op.get('f', 'o') == 'g':
                    p = to_global(p, b.pose())
                if self.keep is not None:
                    self.keep.append(p)
                ctx.call(b.ob.set_xr, p, *frames(op, 'f', dflt='o'), what='set_xr')
                b.xr = np.array(op['p'], float)
            elif k in ('copy', 'dilate'):
                if op['new'] in self.b:
                    return False
                self.b[op['new']] = self.clone(b, op)
            else:
                raise AssertionError(k)
        ctx.log(k, op.get('id'), op.get('dt'))
        return True

    def clone(self, b, op):
        ctx = self.ctx
        if op['op'] == 'copy':
            ob = ctx.call(b.ob.copy, op.get('idm', 'temporary'), op.get('name'), what='copy')
            pad = b.pad
        else:
            ob = ctx.call(b.ob.dilated_obstacle, op['pad'], op.get('idm', 'new'), op.get('name'), what='dilated_obstacle')
            pad = b.pad + op['pad']
        n = Body(ob, b.kind, b.shape, None if b.xr is None else b.xr.copy(), None, None, n_pol=b.n_pol, pad=pad, convex=b.convex)
        e = b.pose()
        with ctx.judging('pose of a copy'):
            p = np.asarray(ob.pos(), float)
            ctx.ensure(np.allclose(p, e[:2], atol=1e-9) and abs(float(ob.rot()) - e[2]) < 1e-9, 'copy-pose', lambda: '%s, original %s' % (p, e))
        if b.ref is not None:
            # from here on the copy has its own motion
            spec = op.get('mm') or dict(m='static', pos=[0., 0.], rot=0.)
            spec = dict(spec, pos=[float(e[0]), float(e[1])])
            if spec['m'] in ('static', 'sin'):
                spec['rot'] = float(e[2])
            n.mm, n.ref = make_mm(spec, self.keep), RefMotion(spec)
            ctx.call(ob.set_motion_model, n.mm, what='set_motion_model')
        if op['op'] == 'copy' and not (b.pad and b.kind == 'ellipse'):
            n.first_poly, n.first_kern = b.first_poly, b.first_kern
        return n

    # ---- helpers
    def inp(self, b, p, f):
        p = np.array(p, float)
        p = to_global(p, b.pose()) if f == 'g' else p
        if self.keep is not None:
            self.keep.append(p)
        return p

    def out(self, b, p, f):
        """library output point given in frame f -> obstacle frame"""
        if self.keep is not None:
            self.keep.append(p, 'out')
        p = np.asarray(p, float)
        assert p.shape == (2,)
        return to_local(p, b.pose()) if f == 'g' else p

    def outv(self, b, v, f):
        v = np.asarray(v, float)
        assert v.shape == (2,)
        return geom.R(b.pose()[2]).T @ v if f == 'g' else v

    def refxr(self, b):
        if b.xr is None:
            b.xr = np.asarray(b.ob.xr(frame('o')), float).copy()
            self.ctx.ensure(b.shape.kernel_side(b.xr) < -1e-9, 'xr-default', 'default reference point %s outside the kernel' % b.xr)
        return b.xr

    # ---- queries: each compares one answer with the reference
    def query(self, name, q):
        b = self.b.get(name)
        if b is None:
            return None
        ctx = self.ctx
        fn = getattr(self, 'q_' + q['k'])
        with ctx.judging('%s of %s' % (q['k'], b.kind)):
            r = fn(b, q)
        if r is not None:
            ctx.count('q:' + q['k'])
            ctx.log('q', name, q['k'], r)
            ctx.state(b.kind, q['k'], q.get('f'), q.get('of'), r if isinstance(r, (str, int)) else '', b.ref.s['m'] if b.ref else None)
        return r

    def q_pose(self, b, q):
        ctx = self.ctx
        p, r = ctx.call(b.ob.pos, what='pos'), ctx.call(b.ob.rot, what='rot')
        e = b.refpose()
        ctx.ensure(np.allclose(np.asarray(p, float), e[:2], atol=1e-7, rtol=1e-9) and abs(float(r) - e[2]) < 1e-7 * (1 + abs(e[2])), 'pose',
                   lambda: 'pos/rot %s %s expected %s' % (p, r, e))
        d = ctx.call(b.ob.pos, frame('g'), what='pos'), ctx.call(b.ob.rot, frame('g'), what='rot')
        ctx.ensure(np.array_equal(p, d[0]) and r == d[1], 'pose-default', lambda: '%s %s, asked for globally %s' % (p, r, d))
        po, ro = ctx.call(b.ob.pos, frame('o'), what='pos'), ctx.call(b.ob.rot, frame('o'), what='rot')
        ctx.ensure(np.allclose(np.asarray(po, float), 0) and float(ro) == 0, 'pose-local', lambda: '%s %s' % (po, ro))
        return 'ok'

    def _check_poly(self, b, pol, f, what, exact):
        ctx = self.ctx
        ctx.ensure(pol.geom_type == 'Polygon' and not pol.is_empty, what + '-type', pol.geom_type)
        v = np.asarray(pol.exterior.coords)[:-1]
        pose = b.pose()
        if f == 'g':
            v = (v - np.array(pose[:2])) @ geom.R(pose[2])
        tol = TOL * (1 + np.abs(np.array(pose[:2])).max())
        first = b.first_poly if what == 'polygon' else b.first_kern
        mine = sg.Polygon(v)
        if first is None:
            if what == 'polygon':
                b.first_poly = mine
            else:
                b.first_kern = mine
            if exact:
                t = RefEllipse(b.shape.a + 5e-4).poly() if b.kind == 'ellipse' else b.shape.v
                t = sg.Polygon(t) if b.convex or what == 'polygon' else b.shape.kernel_poly()
                h = mine.hausdorff_distance(t)
                ctx.ensure(h <= (b.sag() if b.kind == 'ellipse' else tol), what + '-shape', lambda: 'off by %g' % h)
        else:
            h = mine.hausdorff_distance(first)
            ctx.ensure(h <= tol and abs(mine.area - first.area) <= tol * 10 * (1 + first.area), what + '-moved',
                       lambda: 'off by %g in body frame at pose %s' % (h, pose))

    def q_polygon(self, b, q):
        pol = self.ctx.call(b.ob.polygon, *frames(q, 'of'), what='polygon')
        self._check_poly(b, pol, q['of'], 'polygon', b.pad == 0)
        if len(repr(q)) % 3 == 0:
            e = self.ctx.call(b.ob.extreme_points, *frames(q, 'of'), what='extreme_points')
            h = geom.hull(np.asarray(e, float))
            tol = TOL * (1 + np.abs(np.array(b.pose()[:2])).max())
            self.ctx.ensure(h.symmetric_difference(geom.hull(pol)).area <= 10 * tol * (1 + pol.length), 'extreme-points', lambda: 'hull of the extreme points has area %g, of the polygon %g' % (h.area, geom.hull(pol).area))
            self.ctx.count('extreme-points')
        elif len(repr(q)) % 3 == 1 and not (b.pad and not b.convex):
            c, t = self.ctx.call(b.ob.is_convex, what='is_convex'), self.ctx.call(b.ob.is_starshaped, what='is_starshaped')
            self.ctx.ensure(bool(c) == bool(b.convex), 'convexity', lambda: 'is_convex is %s' % c)
            self.ctx.ensure(bool(t) or not b.star and not b.convex, 'starshapedness', lambda: 'is_starshaped is %s' % t)
            self.ctx.count('convexity')
        return q['of']

    def q_kernel(self, b, q):
        if not b.star or b.pad:
            return None
        self._check_poly(b, self.ctx.call(b.ob.kernel, *frames(q, 'of'), what='kernel'), q['of'], 'kernel', True)
        return q['of']

    def q_xr(self, b, q):
        if not b.star:
            return None
        x = self.ctx.call(b.ob.xr, *frames(q, 'of'), what='xr')
        e = self.refxr(b)
        g = self.out(b, x, q['of'])
        self.ctx.ensure(np.allclose(g, e, atol=TOL * (1 + np.abs(b.pose()[:2]).max())), 'xr', lambda: '%s expected %s' % (g, e))
        return q['of']

    def q_xf(self, b, q):
        ctx = self.ctx
        p = np.array(q['p'], float)
        pose = b.pose()
        g = to_global(p, pose)
        tol = TOL * (1 + np.abs(g).max())
        a = ctx.call(b.ob.transform, p.copy(), frame('o'), frame('g'), what='transform')
        c = ctx.call(b.ob.transform, g.copy(), frame('g'), frame('o'), what='transform')
        d = ctx.call(b.ob.transform, p.copy(), frame('o'), frame('o'), what='transform')
        ctx.ensure(np.allclose(a, g, atol=tol) and np.allclose(c, p, atol=tol) and np.allclose(d, p, atol=tol), 'transform',
                   lambda: 'p %s -> %s (expected %s); back %s' % (p, a, g, c))
        Rm = geom.R(pose[2])
        a = ctx.call(b.ob.rotate, p.copy(), frame('o'), frame('g'), what='rotate')
        c = ctx.call(b.ob.rotate, (Rm @ p), frame('g'), frame('o'), what='rotate')
        ctx.ensure(np.allclose(a, Rm @ p, atol=tol) and np.allclose(c, p, atol=tol), 'rotate', lambda: 'p %s -> %s' % (p, a))
        return 'ok'

    def q_loc(self, b, q):
        """point location and the three predicates"""
        ctx = self.ctx
        p = np.array(q['p'], float)
        s = b.shape.side(p)
        band = 1e-6 * (1 + np.abs(b.pose()[:2]).max())
        lo, hi = -band, band
        if b.pad:
            lo, hi = -band, b.pad + 2.5e-3 + b.sag() * 0 + band
            if b.shape.side(p) < -band or self.brackets(b)[0].contains(sg.Point(*p)):
                s = -1.
            else:
                d = self.true_dist(b, p)
                s = d
        x = self.inp(b, p, q['f'])
        loc = ctx.call(b.ob.point_location, x, *frames(q, 'f'), what='point_location')
        ins = ctx.call(b.ob.interior_point, x, *frames(q, 'f'), what='interior_point')
        ext = ctx.call(b.ob.exterior_point, x, *frames(q, 'f'), what='exterior_point')
        loc = float(loc)
        ctx.ensure(not (ins and ext), 'location-contradicts', 'inside and outside')
        ctx.ensure(bool(ins) == (loc < 0) and bool(ext) == (loc > 0), 'location-contradicts', lambda: 'loc %g in %s ext %s' % (loc, ins, ext))
        if s < lo:
            ctx.ensure(loc < 0, 'location', lambda: 'inside by %g but %g' % (s, loc))
            return 'in'
        if s > hi:
            ctx.ensure(loc > 0, 'location', lambda: 'outside by %g but %g' % (s, loc))
            return 'out'
        return 'band'

    def brackets(self, b):
        """a dilated body in its own frame, surely covered and surely not exceeded (rounding of corners, approximated ellipses)"""
        key = (b.kind, b.pad, np.asarray(b.shape.a if b.kind == 'ellipse' else b.shape.v).tobytes())
        if getattr(b, 'brk', (None,))[0] != key:
            if b.kind == 'ellipse':
                lo = sg.Polygon(RefEllipse(b.shape.a + .9 * b.pad).poly(720))
                hi = sg.Polygon(RefEllipse(b.shape.a + 1e-3).poly(1440)).buffer(b.pad + 1e-3, quad_segs=64)
            else:
                o = sg.Polygon(b.shape.v)
                lo, hi = o.buffer(.94 * b.pad, quad_segs=64), o.buffer(b.pad * (1. if b.convex else 1.05) + 1e-3, quad_segs=64)
            b.brk = key, lo, hi
        return b.brk[1:]

    def true_dist(self, b, p):
        if b.kind == 'ellipse':
            return sg.Polygon(RefEllipse(b.shape.a).poly(2000)).distance(sg.Point(*p)) + 0.
        return b.shape.side(p)

    def q_vertex(self, b, q):
        """a corner, and the middle of an axis-parallel edge with representable coordinates, is a boundary point"""
        if b.kind == 'ellipse' or b.pad:
            return None
        ctx = self.ctx
        v = b.shape.v
        i = q['i'] % len(v)
        p = v[i].copy()
        a, c = v[i], v[(i + 1) % len(v)]
        if q.get('mid') and (a[0] == c[0] or a[1] == c[1]):
            m = (a + c) / 2
            if all((m * 4096) % 1 == 0):
                p = m
        loc = ctx.call(b.ob.point_location, p, frame('o'), what='point_location')
        bd = ctx.call(b.ob.boundary_point, p, frame('o'), what='boundary_point')
        ctx.ensure(float(loc) == 0 and bool(bd), 'boundary-location', lambda: 'boundary point %s has location %s' % (p, loc))
        return 'b'

    def q_inter(self, b, q):
        o = self.b.get(q['o'])
        if o is None or o is b or b.pad or o.pad:
            return None
        A = sg.Polygon([to_global(p, b.pose()) for p in b.shape.poly(360)])
        B = sg.Polygon([to_global(p, o.pose()) for p in o.shape.poly(360)])
        r = self.ctx.call(b.ob.intersects, o.ob, what='intersects')
        if A.distance(B) > 4e-3:
            self.ctx.ensure(not r, 'intersects', lambda: 'apart by %g but intersects' % A.distance(B))
            return 'apart'
        A, B = A.buffer(-b.sag() - 1e-3), B.buffer(-o.sag() - 1e-3)
        if not A.is_empty and not B.is_empty and A.intersects(B):
            self.ctx.ensure(bool(r), 'intersects', 'overlap but not reported')
            return 'overlap'
        return 'band'

    # ---- radial
    def _ray(self, b, p):
        xr = self.refxr(b)
        d = np.array(p, float) - xr
        L = np.linalg.norm(d)
        if L < 1e-4:
            return None
        return xr, d / L, L, b.shape.exit(xr, d / L)

    def q_bm(self, b, q):
        if not b.star:
            return None
        r = self._ray(b, q['p'])
        if r is None or r[3] is None:
            return None
        xr, d, L, (e, n, cd) = r
        if b.pad:
            m = self.ctx.call(b.ob.boundary_mapping, self.inp(b, q['p'], q['f']), *frames(q, 'f', 'of'), what='boundary_mapping')
            self.ctx.ensure(m is not None, 'no-boundary', lambda: 'no boundary point from %s through %s (dilated by %g)' % (xr, q['p'], b.pad))
            m = self.out(b, m, q['of'])
            v = m - xr
            self.ctx.ensure(abs(geom.cross(v, d)) < 1e-4 * (1 + b.shape.size) and v @ d > 0, 'boundary-mapping', lambda: '%s is not on the ray' % m)
            dist = 0. if b.shape.side(m) < 0 else self.true_dist(b, m)
            low = b.shape.side(m) if b.shape.side(m) < 0 else 0.
            self.ctx.ensure(low > -1e-4 and dist < b.pad + 3e-3, 'dilated-boundary', lambda: 'boundary at distance %g, padding %g' % (dist, b.pad))
            return 'pad' + q['f'] + q['of']
        m = self.ctx.call(b.ob.boundary_mapping, self.inp(b, q['p'], q['f']), *frames(q, 'f', 'of'), what='boundary_mapping')
        self.ctx.ensure(m is not None, 'no-boundary', lambda: 'no boundary point from %s through %s' % (xr, q['p']))
        m = self.out(b, m, q['of'])
        # conditioning: grazing rays move along the boundary
        tol = 2e-5 * (1 + b.shape.size + np.abs(b.pose()[:2]).max() * 1e-1) / max(.05, abs(float(n @ d)))
        self.ctx.ensure(np.linalg.norm(m - e) <= tol, 'boundary-mapping', lambda: '%s expected %s' % (m, e))
        return q['f'] + q['of']

    def q_df(self, b, q):
        if not b.star:
            return None
        r = self._ray(b, q['p'])
        if r is None or r[3] is None:
            return None
        xr, d, L, (e, n, cd) = r
        if b.pad:
            f = self.ctx.call(b.ob.distance_function, self.inp(b, q['p'], q['f']), *frames(q, 'f'), what='distance_function')
            s = b.shape.side(q['p'])
            if s < -1e-3:
                self.ctx.ensure(0 <= f < 1, 'dilated-distance', lambda: 'inside the original by %g but %g' % (s, f))
                return 'pad-in'
            if s > 0 and self.true_dist(b, q['p']) > b.pad + 5e-3:
                self.ctx.ensure(f > 1, 'dilated-distance', lambda: 'outside by more than the padding %g but %g' % (b.pad, f))
                return 'pad-out'
            return 'pad-band'
        f = float(self.ctx.call(b.ob.distance_function, self.inp(b, q['p'], q['f']), *frames(q, 'f'), what='distance_function'))
        gap = L - float(np.linalg.norm(e - xr))
        band = 5e-5 * (1 + b.shape.size)
        if gap < -band:
            self.ctx.ensure(0 <= f < 1, 'distance', lambda: 'inside by %g but %g' % (gap, f))
        elif gap > band:
            self.ctx.ensure(f > 1, 'distance', lambda: 'outside by %g but %g' % (gap, f))
        x = self.inp(b, e, q['f'])
        fb = float(self.ctx.call(b.ob.distance_function, x, *frames(q, 'f'), what='distance_function'))
        self.ctx.ensure(abs(fb - 1) < 1e-3, 'distance-boundary', lambda: 'on the boundary but %g' % fb)
        loc = float(self.ctx.call(b.ob.point_location, self.inp(b, q['p'], q['f']), *frames(q, 'f'), what='point_location'))
        if abs(gap) > band:
            self.ctx.ensure((loc < 0) == (f < 1) and (loc > 0) == (f > 1), 'distance-vs-location', lambda: 'location %g distance %g' % (loc, f))
        return 'in' if gap < 0 else 'out'

    def q_nrm(self, b, q):
        if not b.star or b.pad:
            return None
        r = self._ray(b, q['p'])
        if r is None or r[3] is None:
            return None
        xr, d, L, (e, n, cd) = r
        if cd < 2e-3:
            return None
        p = e if q.get('xb') else np.array(q['p'], float)
        kw = dict(x_is_boundary=True) if q.get('xb') else {}
        weighted = bool(q.get('xb') and q.get('we') and b.kind != 'ellipse' and cd > .02)
        if weighted:
            kw['type'] = 'weighted_edges'
        m = self.ctx.call(b.ob.normal, self.inp(b, p, q['f']), *frames(q, 'f', 'of'), what='normal', **kw)
        m = self.outv(b, m, q['of'])
        self.ctx.ensure(abs(np.linalg.norm(m) - 1) < 1e-6, 'normal-unit', lambda: 'norm %g' % np.linalg.norm(m))
        tol = 1e-4
        if weighted:                # neighbouring edges count a little
            tol += 4e-6 * b.shape.size / cd ** 2
        if b.kind == 'ellipse':
            k = float(max(b.shape.a)) / float(min(b.shape.a)) ** 2
            tol += 4e-5 * (1 + b.shape.size) * k / max(.05, abs(float(n @ d)))
        self.ctx.ensure(np.linalg.norm(m - n) <= tol, 'normal', lambda: '%s expected %s' % (m, n))
        if weighted:
            self.ctx.count('weighted-normal')
        return q['f'] + q['of']

    def q_rdir(self, b, q):
        if not b.star:
            return None
        xr = self.refxr(b)
        d = np.array(q['p'], float) - xr
        L = np.linalg.norm(d)
        if L < 1e-3:
            return None
        m = self.ctx.call(b.ob.reference_direction, self.inp(b, q['p'], q['f']), *frames(q, 'f', 'of'), what='reference_direction')
        m = self.outv(b, m, q['of'])
        self.ctx.ensure(np.linalg.norm(m - d / L) < 1e-5 * (1 + 1 / L), 'reference-direction', lambda: '%s expected %s' % (m, d / L))
        return q['f'] + q['of']

    # ---- tangents and segments
    def q_tan(self, b, q):
        if not b.convex:
            return None
        if b.pad:
            return self.padded_tan(b, q)
        p = np.array(q['p'], float)
        s = b.shape.side(p)
        if abs(s) < 1e-3:
            return None
        t = self.ctx.call(b.ob.tangent_points, self.inp(b, p, q['f']), *frames(q, 'f', 'of'), what='tangent_points')
        if s < 0:
            self.ctx.ensure(len(t) == 0, 'tangent-inside', 'tangents for an interior point')
            return 'in'
        self.ctx.ensure(len(t) == 2, 'tangent-count', lambda: '%d tangent points outside by %g' % (len(t), s))
        t = [self.out(b, x, q['of']) for x in t]
        if b.kind == 'ellipse':
            e = b.shape.tangents(p)
            near = abs(abs(p[0]) - b.shape.a[0]) < 2e-4 and abs(p[0]) != b.shape.a[0]
            tol = (2e-2 if near else 1e-4) * (1 + b.shape.size) * (1 + 1e-2 / s)
            ok = all(np.linalg.norm(x - y) < tol for x, y in zip(t, e))
            sw = all(np.linalg.norm(x - y) < tol for x, y in zip(t, e[::-1]))
            self.ctx.ensure(ok or sw, 'tangent', lambda: '%s expected %s' % (t, e))
            self.ctx.ensure(ok, 'tangent-order', lambda: 'right tangent first: %s' % t)
        else:
            why = b.shape.tangents_ok(p, t, 1e-6 * (1 + np.abs(b.pose()[:2]).max()))
            self.ctx.ensure(why is None, 'tangent-order' if why == 'order' else 'tangent', lambda: '%s: %s' % (why, t))
        return q['f'] + q['of']

    def padded_tan(self, b, q):
        """tangents of a dilated convex body, bracketed"""
        p = np.array(q['p'], float)
        lo, hi = self.brackets(b)
        inside, outside = lo.contains(sg.Point(*p)), hi.distance(sg.Point(*p)) > 1e-3
        if not inside and not outside:
            return None
        t = self.ctx.call(b.ob.tangent_points, self.inp(b, p, q['f']), *frames(q, 'f', 'of'), what='tangent_points')
        if inside:
            self.ctx.ensure(len(t) == 0, 'tangent-inside', 'tangents for an interior point of a dilated body')
            return 'pad-in'
        self.ctx.ensure(len(t) == 2, 'tangent-count', lambda: '%d tangent points outside the dilated body' % len(t))
        t = [self.out(b, x, q['of']) for x in t]
        c = np.asarray(lo.centroid.coords[0]) - p

        def sight(v):
            v = np.asarray(v) - p
            return np.arctan2(c[0] * v[..., 1] - c[1] * v[..., 0], v @ c)
        al, ah = sight(np.asarray(lo.exterior.coords)), sight(np.asarray(hi.exterior.coords))
        a = [float(sight(x)) for x in t]
        far = 1e-6 * (1 + np.abs(b.pose()[:2]).max()) / float(np.hypot(*c))
        # first the left one, seen from the point
        self.ctx.ensure(al.max() - far <= a[0] <= ah.max() + far and ah.min() - far <= a[1] <= al.min() + far, 'dilated-tangent',
                        lambda: 'tangents of a body dilated by %g in directions %s, expected within %s and %s' %
                        (b.pad, a, (al.max(), ah.max()), (ah.min(), al.min())))
        for x in t:
            self.ctx.ensure(hi.distance(sg.Point(*x)) < 1e-4 and not lo.buffer(-1e-4).contains(sg.Point(*x)), 'dilated-tangent',
                            lambda: 'tangent point %s is not on the boundary of the body dilated by %g' % (x, b.pad))
        return 'pad' + q['f'] + q['of']

    def padded_seg(self, b, q):
        """crossings of a segment with a dilated convex body, bracketed"""
        p, r = np.array(q['p'], float), np.array(q['r'], float)
        L = np.linalg.norm(p - r)
        if L < 1e-2:
            return None
        lo, hi = self.brackets(b)
        seg = sg.LineString([p, r])
        i, o = [lo.contains(sg.Point(*x)) for x in (p, r)], [hi.distance(sg.Point(*x)) > 1e-3 for x in (p, r)]
        if all(i):
            n = 0
        elif all(o) and hi.distance(seg) > 1e-3:
            n = 0
        elif all(o) and lo.intersection(seg).length > .05 * min(1., b.pad):
            n = 2
        elif any(i) and any(o):
            n = 1
        else:
            return None
        g = self.ctx.call(b.ob.line_intersection, [self.inp(b, p, q['f']), self.inp(b, r, q['f'])], *frames(q, 'f', 'of'),
                          what='line_intersection')
        g = [self.out(b, x, q['of']) for x in g]
        # a vertex of the outline right on the segment may be reported for both of its edges
        g = [x for j, x in enumerate(g) if all(np.linalg.norm(x - y) > 1e-9 * (1 + L) for y in g[:j])]
        self.ctx.ensure(len(g) == n, 'dilated-crossings', lambda: '%d crossings %s with a body dilated by %g, expected %d' % (len(g), g, b.pad, n))
        tol = 1e-4 * (1 + b.shape.size + b.pad) * (1 + max(np.abs(p).max(), np.abs(r).max(), np.abs(b.pose()[:2]).max()) * 1e-2)
        for x in g:
            self.ctx.ensure(seg.distance(sg.Point(*x)) < tol and hi.distance(sg.Point(*x)) < tol and not lo.buffer(-tol).contains(sg.Point(*x)), 'dilated-crossing',
                            lambda: 'crossing %s is not on the segment and the boundary of the body dilated by %g' % (x, b.pad))
        return 'pad%d' % n

    def loose_seg(self, b, q):
        """segments along edges, and any segment with a nonconvex outline: what is reported is on both, what is crossed is reported"""
        v = b.shape.v
        if 'e' in q:
            i, s0, s1 = q['e']
            a, c = v[i % len(v)], v[(i + 1) % len(v)]
            u = (c - a) / np.linalg.norm(c - a)
            p, r = a - s0 * u, c + s1 * u
        else:
            p, r = np.array(q['p'], float), np.array(q['r'], float)
        L = np.linalg.norm(r - p)
        if L < 1e-3:
            return None
        g = self.ctx.call(b.ob.line_intersection, [self.inp(b, p, q['f']), self.inp(b, r, q['f'])], *frames(q, 'f', 'of'), what='line_intersection')
        g = [self.out(b, x, q['of']) for x in g]
        tol = 1e-6 * (1 + b.shape.size + L + max(np.abs(p).max(), np.abs(r).max(), np.abs(b.pose()[:2]).max()))
        seg, ring = sg.LineString([p, r]), sg.LinearRing(v)
        if 'e' in q and (q['f'] != 'o' or min(np.abs(c - a)) > 0):
            # collinear up to rounding only: GEOS then snaps, and what it reports is not the crossing of any segment; it must answer, that is all
            self.ctx.ensure(all(x.shape == (2,) and seg.distance(sg.Point(*x)) < tol for x in g), 'crossing', lambda: 'crossings %s off the segment %s %s' % (g, p, r))
            return 'along%d' % min(len(g), 3)
        for x in g:
            self.ctx.ensure(x.shape == (2,) and seg.distance(sg.Point(*x)) < tol and ring.distance(sg.Point(*x)) < tol, 'crossing',
                            lambda: 'crossing %s is not on the segment %s %s and the boundary' % (x, p, r))
        n = 0
        for a, c in zip(v, np.roll(v, -1, axis=0)):
            M = np.array([r - p, a - c]).T
            d = np.linalg.det(M)
            if abs(d) < 1e-2 * L * np.linalg.norm(c - a):
                continue
            t, w = np.linalg.solve(M, a - p)
            if min(t, 1 - t) * L > 1e-3 and min(w, 1 - w) * np.linalg.norm(c - a) > 1e-3:
                n += 1
                y = p + t * (r - p)
                self.ctx.ensure(any(np.linalg.norm(x - y) < 10 * tol for x in g), 'crossing-lost', lambda: 'segment %s %s crosses the boundary at %s, reported: %s' % (p, r, y, g))
        return ('edge%d' if 'e' in q else 'nonconvex%d') % min(n, 3)

    def q_seg(self, b, q):
        if not b.pad and b.kind != 'ellipse' and ('e' in q or not b.convex):
            return self.loose_seg(b, q)
        if not b.convex:
            return None
        if b.pad:
            return self.padded_seg(b, q)
        p, r = np.array(q['p'], float), np.array(q['r'], float)
        if np.linalg.norm(p - r) < 1e-3 or abs(b.shape.side(p)) < 1e-3 or abs(b.shape.side(r)) < 1e-3:
            return None
        if geom.line_corner_dist(b.shape, p, r) < 1e-3 or geom.line_graze(b.shape, p, r) < 1e-3:
            return None
        e = b.shape.segment(p, r)
        g = self.ctx.call(b.ob.line_intersection, [self.inp(b, p, q['f']), self.inp(b, r, q['f'])], *frames(q, 'f', 'of'),
                          what='line_intersection')
        g = [self.out(b, x, q['of']) for x in g]
        d = (r - p) / np.linalg.norm(r - p)
        e.sort(key=lambda x: float(x @ d))
        g.sort(key=lambda x: float(x @ d))
        self.ctx.ensure(len(g) == len(e), 'crossings', lambda: '%d crossings %s, expected %s' % (len(g), g, e))
        L = max(np.abs(p).max(), np.abs(r).max(), np.abs(b.pose()[:2]).max())
        tol = 1e-4 * (1 + b.shape.size) * (1 + L * 1e-2)
        self.ctx.ensure(all(np.linalg.norm(x - y) < tol for x, y in zip(g, e)), 'crossing', lambda: '%s expected %s' % (g, e))
        return len(e)


QK = {
    'C10': ['pose', 'polygon', 'polygon', 'kernel', 'xr', 'xf', 'loc', 'loc', 'inter', 'vertex'],
    'C11': ['bm', 'bm', 'df', 'nrm', 'nrm', 'rdir', 'loc', 'vertex'],
    'C12': ['tan', 'tan', 'seg', 'seg'],
}


def gen_query(rng, kinds, sp, others):
    k = rng.choice(kinds)
    q = dict(k=k)
    if k in ('polygon', 'kernel', 'xr'):
        q['of'] = rng.choice('go')
    elif k == 'xf':
        q['p'] = [rnd(rng.uniform(-9, 9)), rnd(rng.uniform(-9, 9))]
    elif k == 'vertex':
        q['i'] = rng.randrange(8)
        q['mid'] = rng.random() < .5
    elif k == 'inter':
        q['o'] = rng.choice(others)
    elif k == 'pose':
        pass
    else:
        q.update(f=rng.choice('go'), p=gen_point(rng, sp))
        if k not in ('loc', 'df'):
            q['of'] = rng.choice('go')
        if k == 'nrm':
            q['xb'] = rng.random() < .3
            if q['xb'] and rng.random() < .3:
                q['we'] = True
        if k == 'seg':
            r = rng.random()
            if r < .5:
                q['r'] = gen_point(rng, sp)
            else:
                s = rng.choice([-1, 1]) * rng.uniform(.2, 8)
                e = rng.choice([0., 0., 1e-5, -1e-5, 5e-5, 2e-3, -4e-3, 2e-2])
                dx, dy = (e * s, s) if rng.random() < .75 else (s, e * s)
                q['r'] = [rnd(q['p'][0] + dx, 9), rnd(q['p'][1] + dy, 9)]
            if sp['kind'] != 'ellipse' and rng.random() < .25:
                q['e'] = [rng.randrange(12), rng.choice([0., -.125, .5, rnd(rng.uniform(-.3, 4))]), rng.choice([0., 4., rnd(rng.uniform(-.3, 4))])]
                q['f'] = rng.choice('gooo')
        if k == 'tan' and sp['kind'] == 'ellipse' and rng.random() < .15:
            s = rng.choice([-1, 1])
            q['p'] = [s * sp['a'][0], rnd(rng.choice([-1, 1]) * rng.uniform(.05, 4))]
            if rng.random() < .5:
                q['p'] = [rnd(rng.choice([-1, 1]) * rng.uniform(.05, 4)), s * sp['a'][1]]
    return q


def gen_history(rng, n_bodies, n_ops, qkinds, shapes=('ellipse', 'spoly', 'spoly', 'poly', 'star'), mmk=('static', 'sin', 'sin', 'int', 'wp', None),
                clones=True, moves=True, qburst=4, xr_f=('o', 'g')):
    """events and queries in random order; every id used is spawned first (removing ops later only makes others no-ops)"""
    ops, sp = [], {}
    for i in range(n_bodies):
        op = gen_spawn(rng, 'b%d' % i, shapes, mmk)
        sp[op['id']] = op
        ops.append(op)
    nn = n_bodies
    for _ in range(n_ops):
        r = rng.random()
        n = rng.choice(sorted(sp))
        s = sp[n]
        if r < .3:
            d = rng.random()
            dt = 0. if d < .05 else rnd(rng.uniform(.01, .2)) if d < .6 else rnd(rng.uniform(.2, 3)) if d < .95 else rnd(rng.uniform(10, 200))
            op = dict(op='tick', dt=dt)
            if rng.random() < .3:
                op['who'] = [n]
            ops.append(op)
        elif r < .36 and moves:
            ops.append(dict(op='set_pos', id=n, p=[rnd(rng.uniform(-8, 8)), rnd(rng.uniform(-8, 8))] if rng.random() < .7
                            else [rng.randrange(-8, 9), rng.randrange(-8, 9)]))
        elif r < .41 and moves:
            ops.append(dict(op='set_rot', id=n, r=rng.choice([0., rnd(rng.uniform(-7, 7)), rnd(math.pi / 2, 15)])))
        elif r < .44 and moves:
            ops.append(dict(op='set_mm', id=n, mm=gen_mm(rng, [k for k in mmk])))
        elif r < .52 and s['kind'] != 'poly':
            if s['kind'] == 'ellipse':
                q, t = rng.uniform(0, .8), rng.uniform(0, 2 * math.pi)
                p = [rnd(s['a'][0] * q * math.cos(t)), rnd(s['a'][1] * q * math.sin(t))]
            elif s.get('convex', True):
                p = geom.interior_point(rng, s['v'])
            else:
                p = geom.kernel_point(rng, s['v'])
            ops.append(dict(op='set_xr', id=n, p=p, f=rng.choice(xr_f)))
        elif r < .57 and clones and len(sp) < n_bodies + 4:
            k = rng.choice(['copy', 'copy', 'dilate'])
            op = dict(op=k, id=n, new='b%d' % nn, idm=rng.choice(['new', 'temporary', 'duplicate', 'n', 't', 'd', 'temp']),
                      mm=gen_mm(rng, ('static', 'sin')))
            if k == 'dilate':
                op['pad'] = rnd(rng.uniform(.01, .8) if rng.random() < .8 else rng.uniform(.8, 5))
            ops.append(op)
            sp['b%d' % nn] = dict(s)
            nn += 1
        else:
            ops.append(dict(op='query', id=n, q=[gen_query(rng, qkinds, s, sorted(sp)) for _ in range(rng.randrange(1, qburst + 1))]))
    for n in sorted(sp):
        ops.append(dict(op='query', id=n, q=[gen_query(rng, qkinds, sp[n], sorted(sp)) for _ in range(qburst + 2)]))
    return ops


def run_history(trace, ctx, world=None):
    from .seams import CLOCK, SimClock
    CLOCK.clock = SimClock(trace.get('clock'))
    w = world or World(ctx)
    moved = asked = 0
    for op in trace['ops']:
        if op['op'] == 'query':
            for q in op['q']:
                if w.query(op['id'], q) is not None:
                    asked += 1
        elif w.event(op):
            moved += op['op'] != 'spawn'
            ctx.count('event:' + op['op'])
            if op['op'] == 'tick':
                if op['dt'] > 5:
                    ctx.count('fault:stalled-tick')
                elif op['dt'] == 0:
                    ctx.count('fault:zero-tick')
                if op.get('who'):
                    ctx.count('fault:missed-tick-of-others')
    ctx.nontrivial = bool(moved and asked)
    return w
