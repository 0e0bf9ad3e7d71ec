"""Direct queries on bodies and planned regions, as a reader would make them: used by the fault, thread and region properties."""
import numpy as np
import shapely.geometry as sg

from .bodyworld import frame


def combined(ob):
    """whether ob is the combined region of a cluster, and not an obstacle or a region made convex"""
    import obstacles
    return isinstance(ob, obstacles.StarshapedPrimitiveCombination)


def norm(x):
    """answers as plain comparable values, bit for bit"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, np.asarray(x, float).tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(norm(y) for y in x)
    if hasattr(x, 'wkb'):
        return ('g', x.wkb)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    return x if x is None or isinstance(x, str) else repr(type(x))


BODY_Q = ['polygon', 'polygon', 'kernel', 'kernel', 'loc', 'inside', 'outside', 'convex', 'star', 'bm', 'normal', 'df', 'tan', 'seg', 'inter', 'xr',
          'pos', 'extreme', 'refdir', 'copy', 'dilate']
BODY_FIXED = ['polygon', 'kernel', 'loc', 'inside', 'convex', 'tan', 'seg', 'extreme', 'pos']     # do not depend on the reference point
REGION_Q = ['polygon', 'clpolygon', 'excl', 'loc', 'inside', 'outside', 'convex', 'bm', 'normal', 'wnormal', 'df', 'xr', 'seg', 'kernel', 'refdir', 'extreme']


def ask(ob, q, other=None, cl=None, keep=None):
    """one query q = dict(k, x, y, f, of); returns the raw answer"""
    k = q['k']
    f, of = frame(q.get('f', 'g')), frame(q.get('of', 'g'))
    x, y = np.array(q.get('x', [0., 0.]), float), np.array(q.get('y', [1., 1.]), float)
    if k == 'polygon':
        return ob.polygon(of)
    if k == 'kernel':
        return ob.kernel(of)
    if k == 'clpolygon':
        return cl.polygon()
    if k == 'excl':
        return cl.polygon_excluding_hull()
    if k == 'loc':
        return float(ob.point_location(x, f))
    if k == 'inside':
        return bool(ob.interior_point(x, f))
    if k == 'outside':
        return bool(ob.exterior_point(x, f))
    if k == 'convex':
        return bool(ob.is_convex())
    if k == 'star':
        return bool(ob.is_starshaped())
    if k == 'bm':
        return ob.boundary_mapping(x, f, of)
    if k == 'normal':
        return ob.normal(x, f, of)
    if k == 'wnormal':
        return ob.normal(x, type='polygon_approx')
    if k == 'df':
        return float(ob.distance_function(x, f))
    if k == 'tan':
        return ob.tangent_points(x, f, of)
    if k == 'seg':
        return ob.line_intersection([x, y], f, of)
    if k == 'inter':
        return bool(ob.intersects(other))
    if k == 'xr':
        return ob.xr(of)
    if k == 'pos':
        return (ob.pos(of), float(ob.rot(of)))
    if k == 'extreme':
        return ob.extreme_points(of)
    if k == 'refdir':
        return ob.reference_direction(x, f, of)
    if k == 'copy':
        return ob.copy('temporary', None).polygon(of)
    if k == 'dilate':
        return ob.dilated_obstacle(.1, 'temporary').polygon(of)
    raise AssertionError(k)


def applies(kind, k, combined=False):
    if combined:
        return k in REGION_Q and k not in ('extreme',)
    if kind == 'poly' and k in ('kernel', 'bm', 'normal', 'df', 'xr', 'refdir'):
        return False
    if k in ('copy', 'dilate') and kind == 'poly':
        return True
    return k in BODY_Q
