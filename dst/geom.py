"""Independent reference geometry (numpy only; nothing of the library is used)."""
import math

import numpy as np
import shapely


def union(geoms):
    """union of polygons; boolean operations may lose parts where edges almost coincide, then coordinates are snapped"""
    geoms = [g for g in geoms if not g.is_empty]
    u = shapely.union_all(geoms)
    m = u.buffer(1e-6)
    for grid in (1e-9, 1e-8, 1e-7):
        if all(m.covers(g) for g in geoms):
            break
        u = shapely.union_all(geoms, grid_size=grid)
        m = u.buffer(1e-6)
    return u


def hull(*parts):
    """convex hull of geometries and arrays of points (that of GEOS may come out far too small when points almost coincide)"""
    c = np.vstack([shapely.get_coordinates(g) if isinstance(g, shapely.Geometry) else np.asarray(g, float).reshape(-1, 2) for g in parts])
    c = sorted(set(map(tuple, c.tolist())))

    def chain(c):
        out = []
        for q in c:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (q[1] - out[-1][1]) - (out[-1][1] - out[-2][1]) * (q[0] - out[-1][0]) <= 0:
                out.pop()
            out.append(q)
        return out[:-1]
    h = chain(c) + chain(c[::-1])
    return shapely.Polygon(h) if len(h) > 2 else shapely.MultiPoint(c).envelope if len(c) < 2 else shapely.LineString([c[0], c[-1]])


def R(th):
    c, s = math.cos(th), math.sin(th)
    return np.array([[c, -s], [s, c]])


def to_global(p, pose):
    return R(pose[2]) @ np.asarray(p, float) + np.asarray(pose[:2], float)


def to_local(p, pose):
    return R(pose[2]).T @ (np.asarray(p, float) - np.asarray(pose[:2], float))


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def seg_dist(p, a, b):
    d = b - a
    L = float(d @ d)
    t = 0. if L == 0 else min(1., max(0., float((p - a) @ d) / L))
    return float(np.linalg.norm(p - (a + t * d)))


class RefEllipse:
    convex = True

    def __init__(self, a):
        self.a = np.array(a, float)
        self.size = float(max(self.a))

    def kernel_side(self, p):
        return self.side(p)

    def side(self, p):
        """signed distance estimate (first order): <0 inside"""
        q = np.asarray(p, float) / self.a
        f = float(q @ q) - 1.
        g = 2. * np.linalg.norm(np.asarray(p, float) / self.a ** 2)
        if g < 1e-9:
            return -float(min(self.a))
        return f / g if f > 0 else max(f / g, -float(min(self.a)))

    def line_roots(self, p, d):
        """parameters t of p + t d on the boundary (empty or two)"""
        P, D = p / self.a, d / self.a
        A, B, C = float(D @ D), float(P @ D), float(P @ P) - 1.
        disc = B * B - A * C
        if disc <= 0:
            return []
        s = math.sqrt(disc)
        q = -(B + s) if B >= 0 else -(B - s)
        t1, t2 = q / A, (C / q if q != 0 else 0.)
        return sorted([t1, t2])

    def exit(self, xr, d):
        """(boundary point, outward unit normal, distance of the hit to the nearest corner)"""
        t = self.line_roots(xr, d)[1]
        b = xr + t * d
        n = b / self.a ** 2
        return b, n / np.linalg.norm(n), math.inf

    def support(self, n):
        return float(np.linalg.norm(self.a * n))

    def tangents(self, p):
        """[left, right] seen from exterior p"""
        P = p / self.a
        r2 = float(P @ P)
        w = math.sqrt(r2 - 1.)
        o = np.array([-P[1], P[0]])
        t1, t2 = (P + w * o) / r2 * self.a, (P - w * o) / r2 * self.a
        return [t1, t2] if cross(t1 - p, t2 - p) < 0 else [t2, t1]

    def boundary(self, u):
        th = 2 * math.pi * u
        return self.a * np.array([math.cos(th), math.sin(th)])

    def segment(self, p, q):
        d = q - p
        return [p + t * d for t in self.line_roots(p, d) if 0 <= t <= 1]

    def corner_dist(self, p):
        return math.inf

    def poly(self, n=720):
        t = np.linspace(0, 2 * math.pi, n, endpoint=False)
        return np.stack((self.a[0] * np.cos(t), self.a[1] * np.sin(t)), 1)


class RefPoly:
    def __init__(self, v, convex=True):
        v = np.array(v, float)
        area = 0.5 * sum(cross(v[i - 1], v[i]) for i in range(len(v)))
        self.v = v if area > 0 else v[::-1].copy()
        self.area = abs(area)
        self.convex = convex
        self.size = float(np.max(np.linalg.norm(v - v.mean(0), axis=1)))

    def edges(self):
        n = len(self.v)
        return [(self.v[i], self.v[(i + 1) % n]) for i in range(n)]

    def kernel_side(self, p):
        """signed distance to the kernel (to the nearest violated line outside): <0 inside"""
        return max(cross(np.asarray(p, float) - a, b - a) / float(np.linalg.norm(b - a)) for a, b in self.edges())

    def kernel_poly(self):
        if not hasattr(self, '_kernel'):
            lo, hi = np.min(self.v, axis=0), np.max(self.v, axis=0)
            k = [np.array(p, float) for p in [(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1])]]
            for a, b in self.edges():
                n = np.array([a[1] - b[1], b[0] - a[0]]) / np.linalg.norm(b - a)
                h, out = [float(n @ (p - a)) for p in k], []
                for i, (p, hp) in enumerate(zip(k, h)):
                    q, hq = k[(i + 1) % len(k)], h[(i + 1) % len(k)]
                    if hp >= 0:
                        out.append(p)
                    if hp * hq < 0:
                        out.append(p + (q - p) * (hp / (hp - hq)))
                k = out
                if len(k) < 3:
                    break
            k = shapely.Polygon(k).buffer(0) if len(k) >= 3 else shapely.Polygon()
            self._kernel = k
        return self._kernel

    def side(self, p):
        p = np.asarray(p, float)
        d = min(seg_dist(p, a, b) for a, b in self.edges())
        w = 0.
        for a, b in self.edges():
            w += math.atan2(cross(a - p, b - p), float((a - p) @ (b - p)))
        return -d if abs(w) > math.pi else d

    def exit(self, xr, d):
        best = None
        for a, b in self.edges():
            e = b - a
            den = cross(d, e)
            if abs(den) < 1e-14:
                continue
            t = cross(a - xr, e) / den
            s = cross(a - xr, d) / den
            if t > 0 and -1e-12 <= s <= 1 + 1e-12 and (best is None or t > best[0]):
                best = (t, xr + t * d, np.array([e[1], -e[0]]) / np.linalg.norm(e), min(abs(s), abs(1 - s)) * np.linalg.norm(e))
        if best is None:
            return None
        return best[1], best[2], best[3]

    def support(self, n):
        return float(np.max(self.v @ n))

    def tangents_ok(self, p, tps, tol):
        l, r = tps
        for t in (l, r):
            if min(np.linalg.norm(self.v - t, axis=1)) > tol:
                return 'tangent point is not a vertex'
        for x in self.v:
            if cross(l - p, x - p) > tol * (1 + np.linalg.norm(l - p)):
                return 'obstacle is left of the left tangent'
            if cross(r - p, x - p) < -tol * (1 + np.linalg.norm(r - p)):
                return 'obstacle is right of the right tangent'
        if cross(l - p, r - p) > tol:
            return 'order'
        return None

    def boundary(self, u):
        es = self.edges()
        L = np.array([np.linalg.norm(b - a) for a, b in es])
        s = (u % 1.) * L.sum()
        for (a, b), l in zip(es, L):
            if s <= l:
                return a + (b - a) * (s / l)
            s -= l
        return es[-1][1].copy()

    def segment(self, p, q):
        out = []
        d = q - p
        for a, b in self.edges():
            e = b - a
            den = cross(d, e)
            if abs(den) < 1e-14:
                continue
            t = cross(a - p, e) / den
            s = cross(a - p, d) / den
            if 0 <= t <= 1 and 0 <= s <= 1:
                out.append(p + t * d)
        return out

    def corner_dist(self, p):
        return float(min(np.linalg.norm(self.v - p, axis=1)))

    def poly(self, n=0):
        return self.v


def line_corner_dist(shape, p, q):
    """smallest distance of a corner to the segment"""
    if isinstance(shape, RefEllipse):
        return math.inf
    return min(seg_dist(v, p, q) for v in shape.v)


def line_graze(shape, p, q):
    """how far the line is from just touching a convex shape"""
    d = q - p
    L = np.linalg.norm(d)
    n = np.array([-d[1], d[0]]) / L
    off = float(n @ p)
    return min(abs(off - shape.support(n)), abs(off + shape.support(-n)))


# ------------------------------------------------------------------ shapes for generators
def rnd(x, nd=6):
    return round(float(x), nd)


def gen_convex(rng, lo=0.3, hi=2.0, n=None, centred=False):
    n = n or rng.choice([3, 3, 4, 4, 5, 6, 7, 8])
    if rng.random() < 0.2:
        w, h = rng.uniform(lo, hi), rng.uniform(lo, hi)
        q = 1 / 64
        w, h = max(q, round(w / q) * q), max(q, round(h / q) * q)
        v = [[-w, -h], [w, -h], [w, h], [-w, h]]
        o = [0., 0.] if centred or rng.random() < 0.5 else [rng.randrange(-32, 33) / 64, rng.randrange(-32, 33) / 64]
        v = [[a + o[0], b + o[1]] for a, b in v]
        if rng.random() < .4:
            # superfluous corners in the middle of sides (exact binary fractions)
            w = []
            for i, p in enumerate(v):
                n = v[(i + 1) % 4]
                w += [p] + ([[(p[0] + n[0]) / 2, (p[1] + n[1]) / 2]] if rng.random() < .5 else [])
            v = w
    else:
        while True:
            th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
            gaps = [(th[(i + 1) % n] - th[i]) % (2 * math.pi) for i in range(n)]
            if min(gaps) > 0.25 and max(gaps) < 2.9:
                break
        rx, ry, r = rng.uniform(lo, hi), rng.uniform(lo, hi), rng.uniform(0, math.pi)
        o = [0., 0.] if centred else [rng.uniform(-.5, .5), rng.uniform(-.5, .5)]
        c, s = math.cos(r), math.sin(r)
        v = []
        for t in th:
            x, y = rx * math.cos(t), ry * math.sin(t)
            v.append([rnd(c * x - s * y + o[0]), rnd(s * x + c * y + o[1])])
    if rng.random() < 0.5:
        v.reverse()
    k = rng.randrange(len(v))
    return v[k:] + v[:k]


def gen_star(rng, lo=0.4, hi=1.6):
    """star polygon and a point well inside its kernel; returns (vertices, point)"""
    r = rng.random()
    if r < .4:
        n = rng.randrange(5, 11)
        while True:
            th = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
            gaps = [(th[(i + 1) % n] - th[i]) % (2 * math.pi) for i in range(n)]
            if min(gaps) > 0.2 and max(gaps) < 2.4:
                break
        c = [rnd(rng.uniform(-.6, .6)), rnd(rng.uniform(-.6, .6))]
        v = [[rnd(c[0] + (q := rng.uniform(lo, hi)) * math.cos(t)), rnd(c[1] + q * math.sin(t))] for t in th]
    else:
        if r < .6:
            # regular star, alternating radii
            m, ri, o = rng.randrange(3, 8), rng.choice([.5, .6, .75]), rng.choice([0., 0., rng.uniform(0, 6)])
            v = [[hi * (1 if i % 2 else ri) * math.cos(math.pi * i / m + o), hi * (1 if i % 2 else ri) * math.sin(math.pi * i / m + o)] for i in range(2 * m)]
        elif r < .8:
            # L, T and plus shapes
            a, b, c, d, e = [rng.randrange(1, 7) / 2 for _ in range(5)]
            v = rng.choice([[[0, 0], [a + c, 0], [a + c, b], [a, b], [a, b + d], [0, b + d]],
                            [[0, 0], [a, 0], [a, b], [a + c, b], [a + c, b + d], [-e, b + d], [-e, b], [0, b]],
                            [[0, 0], [a, 0], [a, -b], [a + c, -b], [a + c, 0], [a + c + b, 0], [a + c + b, d], [a + c, d], [a + c, d + e], [a, d + e],
                             [a, d], [0, d]]])
            v = [[x / 2, y / 2] for x, y in v]
        else:
            # whole numbers around the origin, corners in line with each other
            while True:
                q = {}
                for _ in range(rng.randrange(5, 10)):
                    x, y = rng.randrange(-4, 5), rng.randrange(-4, 5)
                    if x or y:
                        q.setdefault((x // math.gcd(x, y), y // math.gcd(x, y)), (x, y))
                v = [[x / 2, y / 2] for x, y in sorted(q.values(), key=lambda p: math.atan2(p[1], p[0]))]
                if len(v) < 4:
                    continue
                sp = shapely.Polygon(v)
                if sp.is_valid and sp.area > .3 and RefPoly(v).kernel_poly().area > .05 * sp.area:
                    break
        c = None
    if rng.random() < .3:
        # flat, narrow, small and large ones
        sx, sy = rng.choice([(1, 1), (1, .2), (.3, 1), (5, 5), (40, 40), (.2, 4), (6, .5), (.3, .3)])
        v = [[rnd(x * sx), rnd(y * sy)] for x, y in v]
        c = None
    v = [[rnd(x), rnd(y)] for x, y in v]
    k = RefPoly(v).kernel_poly()
    if c is None or k.area < 1e-3 or RefPoly(v).kernel_side(c) > -.02:
        if k.geom_type != 'Polygon' or k.area < 1e-2 * RefPoly(v).area or k.area < 1e-3 or k.buffer(-.03).is_empty:
            return gen_star(rng, lo, hi)
        c = kernel_point(rng, v)
    if rng.random() < .5:
        v.reverse()
    i = rng.randrange(len(v))
    return v[i:] + v[:i], c


def resize(rng, v, lo, hi):
    """the same shape with its largest extent around the origin between lo and hi"""
    r = max(math.hypot(x, y) for x, y in v)
    f = rng.uniform(lo, hi) / r
    return [[rnd(x * f), rnd(y * f)] for x, y in v]


def two_pockets(rng):
    w, t, g, h = rng.uniform(.6, 1.6), rng.uniform(.15, .35), rng.uniform(.4, 1.), rng.uniform(.4, 1.)
    e = rng.uniform(0, w)
    return [[-w, -t - g], [w, -t - g], [w, t], [t - w, t], [t - w, t + h], [w - e * .5, t + h], [w, 2 * t + h], [-w, 2 * t + h], [-w, 0], [w - t, 0], [w - t, -g],
            [-w, -g]]


def spiral(rng):
    n, w, r = rng.randrange(12, 20), rng.uniform(1.1, 1.6) * 2 * math.pi, rng.uniform(.06, .11)
    t = [w * k / n for k in range(n + 1)]
    f = lambda x, d: [(.35 + r * x + d) * math.cos(x), (.35 + r * x + d) * math.sin(x)]
    return [f(x, .12) for x in t] + [f(x, 0) for x in reversed(t)]


def gen_simple(rng, lo=.6, hi=1.8):
    """simple polygon which need not be starshaped: bays, hooks, zigzags, random outlines; returns (vertices, a point inside)"""
    while True:
        r = rng.random()
        if r < .3:
            # bay of any depth
            w, h, t, d = rng.uniform(1, 3), rng.uniform(.8, 3), rng.uniform(.2, .45), rng.uniform(.1, .9)
            s = rng.uniform(-.2, .2)
            v = [[0, 0], [w, 0], [w + s, h], [w - t, h], [w - t, h * d], [t, h * d], [t, h], [s, h]]
        elif r < .5:
            # S and Z
            a, b, t = rng.uniform(.8, 2), rng.uniform(.8, 2), rng.uniform(.25, .6)
            v = [[0, 0], [a, 0], [a, b], [a + b, b], [a + b, b + t], [a - t, b + t], [a - t, t], [0, t]]
        elif r < .57:
            # two pockets opening to opposite sides
            v = two_pockets(rng)
        elif r < .65:
            # arc
            n, w, ri = rng.randrange(4, 9), rng.uniform(1.5, 4.8), rng.uniform(.5, .8)
            t = [w * k / n for k in range(n + 1)]
            v = [[math.cos(x), math.sin(x)] for x in t] + [[ri * math.cos(x), ri * math.sin(x)] for x in reversed(t)]
        else:
            v = [[rng.uniform(-1, 1), rng.uniform(-1, 1)] for _ in range(rng.randrange(5, 10))]
            n, turned = len(v), True
            while turned:
                turned = False
                for i in range(n - 1):
                    for j in range(i + 1, n):
                        a, b, c, d = v[i], v[(i + 1) % n], v[j], v[(j + 1) % n]
                        if math.dist(a, c) + math.dist(b, d) < math.dist(a, b) + math.dist(c, d) - 1e-9:
                            v[i + 1:j + 1] = v[i + 1:j + 1][::-1]
                            turned = True
        t, o = rng.uniform(0, 2 * math.pi), np.mean(v, axis=0)
        v = [(R(t) @ (np.array(p) - o)).tolist() for p in v]
        v = resize(rng, v, lo, hi)
        p = shapely.Polygon(v)
        if not p.is_valid or p.area < .1 or is_convex_ccw(RefPoly(v).v):
            continue
        core = p.buffer(-.06)
        gap = p.buffer(.03)
        if core.geom_type != 'Polygon' or core.is_empty or gap.interiors or min(math.dist(v[i - 1], v[i]) for i in range(len(v))) < .05:
            continue
        c = core.representative_point()
        if rng.random() < .5:
            v.reverse()
        i = rng.randrange(len(v))
        return v[i:] + v[:i], [rnd(c.x), rnd(c.y)]


def kernel_point(rng, v):
    """random point well inside the kernel"""
    k = RefPoly(v).kernel_poly().buffer(-.02)
    if k.geom_type != 'Polygon' or k.is_empty:
        k = RefPoly(v).kernel_poly()
    return interior_point(rng, np.asarray(k.exterior.coords)[:-1].tolist())


def interior_point(rng, v):
    """random convex combination well inside a convex polygon"""
    w = [rng.uniform(0.15, 1.) for _ in v]
    s = sum(w)
    return [rnd(sum(a * p[0] for a, p in zip(w, v)) / s), rnd(sum(a * p[1] for a, p in zip(w, v)) / s)]


def is_convex_ccw(v):
    v = np.asarray(v, float)
    n = len(v)
    return all(cross(v[(i + 1) % n] - v[i], v[(i + 2) % n] - v[(i + 1) % n]) > -1e-12 for i in range(n))
