"""C15: poses and points handed over are snapshots."""
import numpy as np

from ..core import LibRaised, OutOfDomain, Violation
from ..planworld import branch
from ..bodyworld import QK, World, frame, gen_history, gen_point, rnd
from ..seams import CLOCK, SimClock

PROP = 'C15'
RUNS = dict(quick=3500, thorough=60000)
KINDS = sorted(set(QK['C10'] + QK['C11'] + QK['C12']))
RULE = 'a run with at least one overwritten array and one judged answer after it; distinct by digest of the event and answer log'
PROBES = ['scribble:in', 'scribble:out', 'plan']
STATE_MEASURE = 'distinct (shape kind, query kind, frames, verdict class, motion kind) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'


def gen(rng, tier, i):
    ops = gen_history(rng, rng.randrange(1, 4), rng.randrange(6, 40 if tier == 'thorough' else 22), KINDS, clones=False,
                      shapes=('ellipse', 'spoly', 'poly', 'star'))
    out = []
    for op in ops:
        out.append(op)
        r = rng.random()
        if r < .35:
            out.append(dict(op='scribble', i=rng.getrandbits(20), val=rnd(rng.uniform(-50, 50))))
        elif r < .42:
            out.append(dict(op='take', id=op.get('id', 'b0'), p=[rnd(rng.uniform(-12, 12)), rnd(rng.uniform(-12, 12))]))
        elif r < .45:
            out.append(dict(op='plan', x=[rnd(rng.uniform(-12, 12)), rnd(rng.uniform(-12, 12))], xg=[rnd(rng.uniform(-12, 12)), rnd(rng.uniform(-12, 12))]))
    out.append(dict(op='query', id='b0', q=[dict(k='pose'), dict(k='polygon', of='g'), dict(k='xr', of='g')]))
    return dict(ops=out)


def execute(trace, ctx):
    try:
        simulate(trace, ctx, True)
    except (Violation, LibRaised) as e:
        if not getattr(e, 'kind', '').startswith('changed-'):
            # without the adversary the same history has to be judged well, otherwise overwriting is not the reason
            c = branch(lambda: simulate(trace, ctx, False))
            if c[0] != 'ok':
                raise OutOfDomain('wrong without overwritten arrays, too: %s' % (c[1:],))
        raise


def simulate(trace, ctx, adversary):
    CLOCK.clock = SimClock()
    w = World(ctx, keep=True)
    scribbled = after = 0
    for op in trace['ops']:
        k = op['op']
        if k == 'query':
            for q in op['q']:
                if w.query(op['id'], q) is not None and scribbled:
                    after += 1
        elif k == 'scribble':
            way = w.keep.scribble(op['i'], op['val']) if adversary else None
            if way:
                scribbled += 1
                ctx.count('scribble:' + way)
                ctx.count('fault:caller-overwrites-array')
                for n in sorted(w.b):
                    for q in (dict(k='pose'), dict(k='xr', of='o'), dict(k='polygon', of='g')):
                        w.query(n, q)
        elif k == 'take':
            b = w.b.get(op['id'])
            if b is not None:
                with ctx.judging('hand-over'):
                    for f in 'go':
                        w.keep.append(ctx.call(b.ob.pos, frame(f)), 'out')
                        if b.star:
                            w.keep.append(ctx.call(b.ob.xr, frame(f)), 'out')
                        if b.convex:
                            for t in ctx.call(b.ob.tangent_points, np.array(op['p']), output_frame=frame(f), what='tangent_points'):
                                w.keep.append(t, 'out')
                    if b.star and np.linalg.norm(np.array(op['p']) - np.asarray(b.ob.xr())) > .1:
                        m = ctx.call(b.ob.boundary_mapping, np.array(op['p']), what='boundary_mapping')
                        if m is not None:
                            w.keep.append(m, 'out')
                    if b.mm is not None:
                        w.keep.append(ctx.call(b.mm.pos), 'out')
                        w.keep.append(ctx.call(b.mm.lin_vel), 'out')
        elif k == 'plan':
            import starshaped_hull as sh
            bs = [b for b in w.b.values() if b.star and b.convex]
            x, xg = np.array(op['x']), np.array(op['xg'])
            w.keep.append(x)
            w.keep.append(xg)
            if bs:
                ctx.call(sh.cluster_and_starify, [b.ob for b in bs], x, xg, 0.2, what='cluster_and_starify')
                for b in bs:
                    b.xr = None         # the planner may re-centre reference points
                ctx.count('plan')
        elif w.event(op):
            ctx.count('event:' + k)
        if adversary:
            w.keep.check(ctx)
    ctx.nontrivial = bool(scribbled and after)
