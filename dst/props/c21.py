"""C21: plots of moving obstacles show the current pose; plots of a plan show its regions."""
import math

import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..bodyworld import QK, World, frame, gen_history, rnd
from ..core import LibRaised, OutOfDomain, Violation
from ..geom import RefEllipse, to_global
from ..planworld import PlanWorld, gen_loop
from ..seams import CLOCK, SimClock

PROP = 'C21'
RUNS = dict(quick=1600, thorough=30000)
RULE = 'a run that judged at least one plot after the obstacle had moved or its reference point had changed; distinct by digest of the event log'
PROBES = ['draw', 'update', 'update-other-frame', 'stale-handles', 'render', 'plan-drawing', 'region-drawn', 'incomplete-plan-drawing']
STATE_MEASURE = 'distinct (shape kind, frame, options, motion kind, moved since) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout; matplotlib with the Agg backend, no window'
SHRINK_IN = ('q',)
KINDS = sorted(set(QK['C10'] + QK['C11']))
PROF = dict(spawn=0, swap=0, budget=.2, mi=.2, skip=0, ws=.1, ex=.1, mc=.3, steps=(1, 3), n=[1, 2, 3, 4], vb=0, hist=0, lose=0, rev=0)


def gen(rng, tier, i):
    plan = rng.random() < .25
    if plan:
        ops = gen_loop(rng, tier, PROF)
    else:
        ops = gen_history(rng, rng.randrange(1, 4), rng.randrange(5, 40 if tier == 'thorough' else 18), KINDS, qburst=2)
    names = [o['new'] if o['op'] in ('copy', 'dilate') else o['id'] for o in ops if o['op'] in ('spawn', 'copy', 'dilate')]
    out, known, nd = [], [], 0
    for op in ops:
        out.append(op)
        if op['op'] in ('spawn', 'copy', 'dilate'):
            known.append(op.get('new') or op['id'])
        if not known:
            continue
        for _ in range(2):
            r = rng.random()
            if r < .25:
                o = dict(op='draw', id=rng.choice(known), h=nd, f=rng.choice(['g', 'g', 'g', 'o', None]), via=rng.choice(['draw', 'draw', 'init']),
                         ax=rng.choice([None, 0, 0, 1]))
                if rng.random() < .4:
                    o['ref'] = rng.random() < .5
                if rng.random() < .5:
                    o['name'] = True
                if rng.random() < .4:
                    o['kw'] = rng.choice([dict(fc='r'), dict(facecolor='b', alpha=.5), dict(ec='k'), dict(fc='g', ec='k', alpha=.8)])
                out.append(o)
                nd += 1
            elif r < .5 and nd:
                out.append(dict(op='update', h=rng.randrange(nd), f=rng.choice(['g', 'g', 'g', 'o', None])))
            elif r < .56 and nd:
                out.append(dict(op='update-all', f=rng.choice(['g', 'g', 'o', None])))
        if rng.random() < .02:
            out.append(dict(op='render'))
        if op['op'] == 'plan' and rng.random() < .8:
            out.append(dict(op='show-plan', how=rng.choice(['clustering', 'star', 'ker', 'cluster']), lim=rng.random() < .3))
    if nd:
        out.append(dict(op='update-all', f='g'))
    return dict(ops=out)


# ------------------------------------------------------------------ reading a plot
def artists(handles):
    from matplotlib.patches import Patch
    from matplotlib.lines import Line2D
    from matplotlib.text import Text
    hs = [h for h in handles if h is not None]
    return ([h for h in hs if isinstance(h, Patch)], [h for h in hs if isinstance(h, Line2D)], [h for h in hs if isinstance(h, Text)])


def patch_polygon(p):
    from matplotlib.transforms import Affine2D
    t = p.get_patch_transform()
    # curves are flattened to pixels: enlarge them first
    ps = p.get_path().transformed(t + Affine2D().scale(3000.)).to_polygons()
    ps = [np.asarray(q) / 3000. for q in ps if len(q) > 2]
    assert ps
    return sg.Polygon(max(ps, key=len))


def xy(line):
    return np.array([np.ravel(line.get_xdata())[0], np.ravel(line.get_ydata())[0]], float)


def expect(b, f):
    """outline bounds, marker and label of a body at its current reference pose"""
    pose = b.pose() if f != 'o' else (0., 0., 0.)
    e = dict(pose=pose, kind=b.kind, pad=b.pad, label=None, marker=None)
    if b.star:
        e['marker'] = to_global(np.asarray(b.ob.xr(frame('o')), float), pose)
    e['label'] = e['marker'] if b.star else np.array(pose[:2], float)
    return e


def snapshot(b):
    s = [b.pose(), b.ob.id(), str(b.ob), b.ob.polygon(frame('g')).wkb, b.ob.polygon(frame('o')).wkb]
    if b.star:
        s += [np.asarray(b.ob.xr(frame('o')), float).tobytes(), np.asarray(b.ob.xr(frame('g')), float).tobytes()]
    return s


def judge(ctx, d, what):
    b, e = d['b'], d['e']
    with ctx.judging('plot of %s' % b.kind):
        pa, li, te = artists(d['handles'])
        ctx.ensure(len(pa) == 1, 'outline-missing', lambda: '%d outlines' % len(pa))
        got = patch_polygon(pa[0])
        tol = 2e-3 + 1e-6 * np.abs(e['pose'][:2]).max()
        if b.kind == 'ellipse':
            lo = [to_global(p, e['pose']) for p in RefEllipse(b.shape.a + b.pad).poly(720)]
        else:
            lo = [to_global(p, e['pose']) for p in b.shape.v]
        lo = sg.Polygon(lo)
        if b.pad and b.kind != 'ellipse':
            lo = lo.buffer(b.pad, quad_segs=32)
            tol += .02 * b.pad
        h = got.hausdorff_distance(lo) if b.kind == 'ellipse' or not b.pad else max(
            got.difference(lo.buffer(tol)).area, lo.difference(got.buffer(tol)).area) * 1e4
        ctx.ensure(h <= tol + (b.pad * .1 if b.kind == 'ellipse' and b.pad else 0), 'outline',
                   lambda: '%s: outline is off by %g at pose %s' % (what, h, e['pose']))
        mt = 1e-6 * (1 + np.abs(e['pose'][:2]).max() + b.shape.size)
        if d['ref'] and b.star:
            ctx.ensure(len(li) == 1, 'marker-missing', lambda: '%d markers' % len(li))
            ctx.ensure(np.allclose(xy(li[0]), e['marker'], atol=mt), 'marker', lambda: '%s: marker at %s, expected %s' % (what, xy(li[0]), e['marker']))
        else:
            ctx.ensure(not li, 'marker-unasked', lambda: '%d markers' % len(li))
        if d['name']:
            ctx.ensure(len(te) == 1, 'label-missing', lambda: '%d labels' % len(te))
            ctx.ensure(np.allclose(te[0].get_position(), e['label'], atol=mt), 'label',
                       lambda: '%s: label at %s, expected %s' % (what, te[0].get_position(), e['label']))
            ctx.ensure(te[0].get_text() == str(b.ob), 'label-text', lambda: '%s' % te[0].get_text())
        else:
            ctx.ensure(not te, 'label-unasked', lambda: '%d labels' % len(te))
        for a in pa + li + te:
            ctx.ensure(a.axes is d['ax'], 'axes', 'drawn into other axes')


def execute(trace, ctx):
    import matplotlib.pyplot as plt
    try:
        run(trace, ctx)
    finally:
        plt.close('all')


def run(trace, ctx):
    import matplotlib.pyplot as plt
    CLOCK.clock = SimClock()
    w = PlanWorld(ctx)
    drawn = {}
    shared = {}
    moved = judged_moved = 0
    for op in trace['ops']:
        k = op['op']
        if k == 'query':
            for q in op['q']:
                try:
                    w.query(op['id'], q)        # only to fill whatever the obstacle caches
                except (Violation, LibRaised):
                    ctx.count('query-judged-elsewhere')
        elif k == 'plan':
            try:
                w.plan(op)
            except LibRaised as e:
                raise OutOfDomain('planning raises: %s' % e)
        elif k == 'draw':
            b = w.b.get(op['id'])
            if b is None or op['h'] in drawn:
                continue
            if b.star:
                w.refxr(b)
            kw = dict(op.get('kw', {}))
            ax = None
            if op['ax'] is not None:
                if op['ax'] not in shared:
                    shared[op['ax']] = plt.subplots()[1]
                ax = kw['ax'] = shared[op['ax']]
            if 'ref' in op:
                kw['show_reference'] = op['ref']
            if op.get('name'):
                kw['show_name'] = True
            f = dict(frame=frame(op['f'])) if op['f'] else {}
            if op['via'] == 'draw':
                hs, ax2 = ctx.call(b.ob.draw, what='draw', **f, **kw)
            else:
                hs, ax2 = ctx.call(b.ob.init_plot, what='init_plot', **kw)
                ctx.call(b.ob.update_plot, hs, what='update_plot', **f)
            ctx.ensure(ax2 is not None and (ax is None or ax2 is ax), 'axes', 'drawn into other axes')
            d = dict(b=b, id=op['id'], handles=hs, ax=ax2, ref=op.get('ref', True), name=bool(op.get('name')), e=expect(b, op['f']), stamp=moved)
            drawn[op['h']] = d
            judge(ctx, d, 'after draw')
            ctx.count('draw')
            if moved:
                judged_moved += 1
            ctx.state(b.kind, op['f'], op.get('ref'), op.get('name'), b.ref.s['m'] if b.ref else None, bool(moved))
            ctx.log('draw', op['id'], op['h'])
        elif k in ('update', 'update-all'):
            before = {n: snapshot(b) for n, b in w.b.items()}
            for h in sorted(drawn) if k == 'update-all' else [op['h']]:
                d = drawn.get(h)
                if d is None:
                    continue
                b = d['b']
                if b.star:
                    w.refxr(b)
                f = dict(frame=frame(op['f'])) if op['f'] else {}
                ctx.call(b.ob.update_plot, d['handles'], what='update_plot', **f)
                d['e'] = expect(b, op['f'])
                judge(ctx, d, 'after update')
                ctx.count('update')
                if op['f'] == 'o':
                    ctx.count('update-other-frame')
                if d['stamp'] != moved:
                    judged_moved += 1
                    ctx.state(b.kind, op['f'], 'update', b.ref.s['m'] if b.ref else None)
                d['stamp'] = moved
            # the other plots stay as they were last updated
            for h in sorted(drawn):
                if drawn[h]['stamp'] != moved:
                    ctx.count('stale-handles')
                    ctx.count('fault:missed-redraw')
                judge(ctx, drawn[h], 'untouched')
            for n in sorted(w.b):
                ctx.ensure(snapshot(w.b[n]) == before[n], 'obstacle-changed', lambda: 'redrawing changed obstacle %s' % n)
            ctx.log(k, op.get('h'))
        elif k == 'render':
            for f in plt.get_fignums():
                plt.figure(f).canvas.draw()
                ctx.count('render')
                break
        elif k == 'show-plan':
            if w.last and w.last.clusters:
                show_plan(w, w.last, op, ctx)
                if moved:
                    judged_moved += 1
        elif w.event(op):
            ctx.count('event:' + k)
            if k not in ('spawn', 'copy', 'dilate'):
                moved += 1
    ctx.nontrivial = judged_moved > 0


def shown(ax):
    """areas shown in axes, as a list of polygons"""
    return [patch_polygon(p).buffer(0) for p in ax.patches]


def show_plan(w, p, op, ctx):
    import matplotlib.pyplot as plt
    import starshaped_hull as sh
    lim = dict(xlim=[-6., 6.], ylim=[-5., 5.]) if op['lim'] else {}
    how = op['how']
    # obstacles may have moved since the plan: they are shown where they are, combined regions where they were planned
    now = {n: sg.Polygon([to_global(q, w.b[n].pose()) for q in w.b[n].shape.poly(360)]) for n in p.names}
    if how == 'cluster':
        for c, m, r in zip(p.clusters, p.members, p.regions):
            _, ax = ctx.call(c.draw, what='ObstacleCluster.draw')
            axs = [ax]
            check_shown(ctx, w, p, axs, [([n for n in m], [c] if c.cluster_obstacle is not None else [])], now)
            plt.close('all')
        ctx.count('plan-drawing')
        return
    if how == 'clustering':
        fig, ax = ctx.call(sh.draw_clustering, p.clusters, p.x, p.xg, what='draw_clustering', **lim)
        want = [(list(p.names), [])]
        axs = [ax]
    elif how == 'star':
        fig, ax = ctx.call(sh.draw_star_hull, p.clusters, p.x, p.xg, what='draw_star_hull', **lim)
        want = [(list(p.names), [c for c in p.clusters if c.cluster_obstacle is not None])]
        axs = [ax]
    else:
        fig, ax = ctx.call(sh.draw_adm_ker, p.clusters, p.x, p.xg, what='draw_adm_ker', **lim)
        axs = [a for a in np.ravel(ax)]
        for a in axs:
            if a.lines:
                marks(ctx, a, p)
        ctx.count('plan-drawing')
        return
    with ctx.judging('drawing of a plan'):
        marks(ctx, axs[0], p)
        check_shown(ctx, w, p, axs, want, now)
        if op['lim']:
            ctx.ensure(np.allclose(axs[0].get_xlim(), lim['xlim']) and np.allclose(axs[0].get_ylim(), lim['ylim']), 'limits', lambda: '%s' % (axs[0].get_xlim(),))
    if not p.flag:
        ctx.count('incomplete-plan-drawing')
    ctx.count('plan-drawing')


def marks(ctx, ax, p):
    pts = [xy(ln) for ln in ax.lines]
    for what, q in (('robot', p.x), ('goal', p.xg)):
        ctx.ensure(any(np.allclose(a, q, atol=1e-9) for a in pts), 'mark-missing', lambda: '%s is not shown at %s' % (what, q))


def check_shown(ctx, w, p, axs, want, now):
    """everything that has to be shown is shown, and nothing else"""
    for ax, (names, cls) in zip(axs, want):
        polys = shown(ax)
        have = geom.union(polys) if polys else sg.Polygon()
        need = []
        for n in names:
            # polygon_excluding_hull of a cluster may have been computed when the plan was made
            need.append((n, now[n], p.outlines[n], p.sag[n] + 3e-3))
        for c in cls:
            i = p.clusters.index(c)
            r = p.regions[i] if p.comb[i] else None
            if r is not None:
                ctx.count('region-drawn')
                for g in getattr(r, 'geoms', [r]):
                    hit = [q for q in polys if q.symmetric_difference(sg.Polygon(g.exterior)).area < 1e-6 * (1 + g.area)]
                    ctx.ensure(bool(hit), 'region-not-shown', lambda: 'region of %s (area %g) is not among the %d outlines shown' % (p.members[i], r.area, len(polys)))
        for n, a, b, tol in need:
            # shown where it is, or (as part of the plan) where it was planned
            l1, l2 = a.difference(have.buffer(tol)).area, b.difference(have.buffer(tol)).area
            ctx.ensure(min(l1, l2) < 1e-6, 'obstacle-not-shown', lambda: 'obstacle %s lacks area %g' % (n, min(l1, l2)))
        allowed = [a.buffer(t) for _, a, _, t in need] + [b.buffer(t) for _, _, b, t in need] + \
                  [sg.Polygon(g.exterior).buffer(1e-3) for i, r in enumerate(p.regions) if r is not None for g in getattr(r, 'geoms', [r])]
        extra = have.difference(geom.union(allowed)).area if allowed else have.area
        ctx.ensure(extra < 1e-6, 'shown-too-much', lambda: 'area %g shown belongs to no obstacle or region' % extra)
