"""C16: copies and dilations are faithful, independent and uniquely identified."""
import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..bodyworld import World, frame, gen_history, gen_query, lib, rnd
from ..geom import RefEllipse
from ..seams import CLOCK, SimClock

PROP = 'C16'
RUNS = dict(quick=3500, thorough=60000)
KINDS = ['polygon', 'polygon', 'kernel', 'xr', 'xr', 'loc', 'loc', 'bm', 'pose', 'vertex', 'tan', 'seg']
RULE = 'a run with at least one copy or dilation; distinct by digest of the event and answer log'
PROBES = ['copied', 'dilated', 'chained-dilation', 'dilated-after-query', 'id:new', 'id:temp', 'id:dup', 'id:int']
STATE_MEASURE = 'distinct (shape kind, query kind, frames, verdict class, motion kind) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'
NEW, TEMP, DUP = ('new', 'n'), ('temporary', 'temp', 't'), ('duplicate', 'd')


def gen(rng, tier, i):
    ops = gen_history(rng, rng.randrange(1, 4), rng.randrange(6, 40 if tier == 'thorough' else 22), KINDS, qburst=3)
    out, names = [], []
    for op in ops:
        if op['op'] == 'spawn':
            op['idm'] = rng.choice(['new', 'new', 'n', 'temporary', 't', 'temp'])
            if rng.random() < .3:
                op['name'] = 'N%d' % rng.randrange(100)
        out.append(op)
        if op['op'] in ('spawn', 'copy', 'dilate'):
            names.append(op.get('new', op['id']))
        if names and rng.random() < .3 and len(names) < 9:
            new = 'c%d' % len(out)
            k = rng.choice(['copy', 'dilate', 'dilate'])
            o = dict(op=k, id=rng.choice(names), new=new, idm=rng.choice(['new', 'n', 'temporary', 'temp', 't', 'duplicate', 'd', 1, 2]),
                     mm=dict(m='static', pos=[0., 0.], rot=0.))
            if k == 'dilate':
                o['pad'] = rnd(10 ** rng.uniform(-2, 0))
            if rng.random() < .2:
                o['name'] = 'M%d' % rng.randrange(100)
            out.append(o)
            names.append(new)
            sp = next((s for s in ops if s['op'] == 'spawn'), None)
            if sp is not None and rng.random() < .7:
                out.append(dict(op='query', id=new, q=[gen_query(rng, KINDS, sp, names) for _ in range(4)]))
    return dict(ops=out)


def outline(b, extra=0.):
    """true region of a body in its own frame (without padding)"""
    return sg.Polygon(RefEllipse(b.shape.a + extra).poly(1440)) if b.kind == 'ellipse' else sg.Polygon(b.shape.v)


def execute(trace, ctx):
    CLOCK.clock = SimClock()
    w = World(ctx)
    seen = set()
    clones = 0
    asked = set()

    def ledger(ob, idm, orig=None):
        i = ctx.call(ob.id)
        if idm in NEW:
            ctx.count('id:new')
            ctx.ensure(i is not None and i not in seen, 'id-not-unique', lambda: 'new obstacle has id %s, taken: %s' % (i, sorted(seen)))
        elif idm in TEMP:
            ctx.count('id:temp')
            ctx.ensure(i is None, 'id-of-temporary', lambda: 'id %s' % i)
        elif idm in DUP:
            ctx.count('id:dup')
            ctx.ensure(i == orig, 'id-of-duplicate', lambda: 'id %s, original %s' % (i, orig))
        elif isinstance(idm, int):
            ctx.count('id:int')
            ctx.ensure(i == (idm if idm in seen else None), 'id-of-existing', lambda: 'id %s, asked for %s' % (i, idm))
        if i is not None:
            seen.add(i)

    # ids handed out before this run are taken
    with ctx.judging('id'):
        probe = ctx.call(lib()[0].Ellipse, [1., 1.])
        seen.update(range(1, int(probe.id()) + 1))
    for op in trace['ops']:
        k = op['op']
        if k == 'query':
            for q in op['q']:
                if w.query(op['id'], q) is not None:
                    asked.add(op['id'])
            continue
        if k in ('copy', 'dilate'):
            b = w.b.get(op['id'])
            if b is None or op['new'] in w.b:
                continue
            orig_id = b.ob.id()
            if op['idm'] in DUP and orig_id is None:
                continue
            if isinstance(op['idm'], int) and op['idm'] not in seen:
                continue
            # the original may or may not have been asked for its polygon before: ask only afterwards
            w.event(op)
            n = w.b[op['new']]
            clones += 1
            ctx.count('event:' + k)
            ledger(n.ob, op['idm'], orig_id)
            with ctx.judging('copy'):
                if k == 'copy':
                    ctx.count('copied')
                    for f in 'og':
                        h = n.ob.polygon(frame(f)).hausdorff_distance(b.ob.polygon(frame(f)))
                        tol = 1e-6 if not (b.pad and b.kind == 'ellipse') else .2 * b.pad + b.sag() + 5e-3
                        ctx.ensure(h < tol, 'copy-differs', lambda: 'polygon off by %g' % h)
                    if b.star:
                        ctx.ensure(np.allclose(np.asarray(n.ob.xr(frame('o'))), np.asarray(b.ob.xr(frame('o'))), atol=1e-12), 'copy-differs', 'xr')
                else:
                    ctx.count('dilated')
                    if b.pad:
                        ctx.count('chained-dilation')
                    if op['id'] in asked:
                        ctx.count('dilated-after-query')
                    for f in 'og':
                        dp = n.ob.polygon(frame(f))
                        op_ = b.ob.polygon(frame(f))
                        lost = op_.difference(dp.buffer(1e-7)).area
                        ctx.ensure(dp.is_valid and lost < 1e-9, 'dilation-loses', lambda: 'area %g of the original is outside the dilation' % lost)
                        ctx.ensure(dp.area > op_.area, 'dilation-not-larger', '')
                    far = shapely.distance(outline(b, 1e-3), shapely.points(np.asarray(n.ob.polygon(frame('o')).segmentize(.02 * (1 + b.shape.size)).exterior.coords)))
                    far = float(np.max(far)) - n.pad
                    # GEOS smooths concave outlines by about 1% of the distance before it offsets them
                    ctx.ensure(far < 2e-3 + (0 if b.convex else .05 * n.pad), 'dilation-exceeds', lambda: 'reaches %g beyond the padding' % far)
                    # it really grew: by the padding at its corners and flanks, up to the sampling of the ellipse
                    room = n.ob.polygon(frame('o')).exterior.distance(outline(b)) if not b.kind == 'ellipse' else None
                    if room is not None:
                        ctx.ensure(room > .95 * n.pad - 1e-6, 'dilation-too-small', lambda: 'distance to the original %g, padding %g' % (room, n.pad))
                    else:
                        core = sg.Polygon(RefEllipse(b.shape.a).poly()).buffer(.9 * min(n.pad, n.pad * min(b.shape.a) / max(b.shape.a)) - b.sag() * (1 + n.pad / min(b.shape.a)) - .03 * n.pad)
                        if not core.is_empty:
                            ctx.ensure(core.difference(n.ob.polygon(frame('o'))).area < 1e-3 * core.area + 1e-6, 'dilation-too-small',
                                       lambda: 'lacks area %g' % core.difference(n.ob.polygon(frame('o'))).area)
            for nm in (op['id'], op['new']):
                for q in (dict(k='xr', of='g'), dict(k='polygon', of='o'), dict(k='polygon', of='g'), dict(k='pose')):
                    w.query(nm, q)
            continue
        if w.event(op):
            ctx.count('event:' + k)
            if k == 'spawn':
                ledger(w.b[op['id']].ob, op['idm'])
            if k == 'set_xr':
                for nm in sorted(w.b):
                    w.query(nm, dict(k='xr', of='o'))
    ctx.nontrivial = clones > 0
