"""C22: a guarded reference-point update never leaves the kernel."""
import numpy as np

from .. import geom
from ..core import LibRaised, OutOfDomain, Violation
from ..planworld import branch
from ..bodyworld import World, frame, gen_history, gen_point, rnd
from ..geom import to_global
from ..seams import CLOCK, SimClock

PROP = 'C22'
RUNS = dict(quick=5000, thorough=90000)
RULE = 'a run with at least one accepted and one refused update; distinct by digest of the event and answer log'
PROBES = ['accepted', 'refused', 'band', 'frame:g', 'frame:o']
STATE_MEASURE = 'distinct (shape kind, verdict, frame, motion kind, earlier kernel query) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'
KINDS = ['xr', 'xr', 'nrm', 'bm', 'kernel', 'polygon', 'loc']


def gen(rng, tier, i):
    ops = gen_history(rng, rng.randrange(1, 3), rng.randrange(4, 30 if tier == 'thorough' else 18), KINDS, clones=False,
                      shapes=('ellipse', 'spoly', 'star', 'star'), qburst=2)
    out, sp = [], {}
    for op in ops:
        out.append(op)
        if op['op'] == 'spawn':
            sp[op['id']] = op
        while sp and rng.random() < .45:
            n = rng.choice(sorted(sp))
            p = gen_point(rng, sp[n])
            out.append(dict(op='guard', id=n, p=p, f=rng.choice('go')))
    return dict(ops=out)


def centre(b):
    return np.mean(b.shape.poly(), axis=0) if b.convex else np.array(b.shape.kernel_poly().centroid.coords[0])


OWN = ('refused-inside', 'accepted-outside', 'neither')


def execute(trace, ctx):
    try:
        simulate(trace, ctx, True)
    except (Violation, LibRaised) as e:
        if getattr(e, 'kind', '') not in OWN:
            # with plain updates instead of guarded ones the same history has to be judged well
            c = branch(lambda: simulate(trace, ctx, False))
            if c[0] != 'ok':
                raise OutOfDomain('wrong without guarded updates, too: %s' % (c[1:],))
        raise


def simulate(trace, ctx, guarded):
    CLOCK.clock = SimClock()
    w = World(ctx)
    acc = ref = 0
    for op in trace['ops']:
        k = op['op']
        if k == 'query':
            for q in op['q']:
                w.query(op['id'], q)
        elif k == 'guard':
            b = w.b.get(op['id'])
            if b is None or not b.star:
                continue
            with ctx.judging('guarded update'):
                old = w.refxr(b).copy()
                p = np.array(op['p'], float)
                s = b.shape.kernel_side(p)
                pose = b.pose()
                x = to_global(p, pose) if op['f'] == 'g' else p.copy()
                if guarded:
                    ctx.call(b.ob.set_xr, x, frame(op['f']), True, what='set_xr')
                elif s < 0:
                    ctx.call(b.ob.set_xr, x, frame(op['f']), what='set_xr')
                ctx.count('frame:' + op['f'])
                g = np.asarray(b.ob.xr(frame('o')), float)
                tol = 1e-6 * (1 + np.abs(pose[:2]).max())
                is_new, is_old = np.allclose(g, p, atol=tol), np.allclose(g, old, atol=tol)
                if s < -max(1e-3, b.sag()):
                    ctx.ensure(is_new, 'refused-inside', lambda: 'requested %s is inside the kernel by %g, but xr is %s' % (p, -s, g))
                    acc += 1
                    v = 'accepted'
                elif s > (3e-3 if b.kind == 'ellipse' else 1e-3):
                    ctx.ensure(is_old, 'accepted-outside', lambda: 'requested %s is outside the kernel by %g, but xr became %s (was %s)' % (p, s, g, old))
                    ref += 1
                    v = 'refused'
                else:
                    ctx.ensure(is_new or is_old, 'neither', lambda: '%s' % g)
                    v = 'band'
                ctx.count(v)
                b.xr = p.copy() if is_new else old
                if b.shape.kernel_side(b.xr) > -1e-2:
                    # too close to the boundary for the radial queries: judge the register only
                    ctx.call(b.ob.set_xr, old if b.shape.kernel_side(old) < -1e-2 else centre(b), frame('o'))
                    b.xr = None
                w.query(op['id'], dict(k='xr', of='g'))
                w.query(op['id'], dict(k='nrm', f='o', of='o', p=[float(2 * z + .37) for z in op['p']]))
                ctx.state(b.kind, v, op['f'], b.ref.s['m'] if b.ref else None)
                ctx.log('guard', v, op['p'])
        elif w.event(op):
            ctx.count('event:' + k)
    ctx.nontrivial = bool(acc and ref)
