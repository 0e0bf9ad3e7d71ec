"""C14: concurrent readers get the answers sequential readers get."""
import random

import numpy as np

from ..bodyworld import gen_spawn, rnd
from ..core import LibRaised, OutOfDomain
from ..planworld import PlanWorld, branch, gen_loop
from ..regions import REGION_Q, applies, ask, combined
from ..seams import CLOCK, CoopSched, Deadlock, SimClock, StepLimit

PROP = 'C14'
RUNS = dict(quick=4000, thorough=60000)
RULE = 'a run in which readers were switched while inside library code and their answers compared; distinct by digest of the event and answer log'
PROBES = ['readers-of-regions', 'readers-of-bodies', 'readers-after-move', 'first-readers']
STATE_MEASURE = 'distinct (queries of the readers, switch positions modulo nothing) interleavings'
REAL = 'all of utils, obstacles, starshaped_hull; numpy, shapely/GEOS; real CPython threads released one at a time'
STUB = 'thread scheduler, clock (time module), numpy global random stream seed, stdout; locks the library asks for'
SHRINK = ['switches', 'ops']
SHRINK_IN = ('q',)
Q = ['polygon', 'polygon', 'kernel', 'kernel', 'loc', 'inside', 'outside', 'convex', 'star', 'bm', 'bm', 'normal', 'normal', 'df', 'tan', 'seg', 'inter', 'xr', 'pos',
     'extreme', 'refdir', 'copy', 'dilate']
RQ = REGION_Q + ['normal', 'wnormal', 'wnormal', 'wnormal', 'kernel', 'convex', 'bm']
PROF = dict(spawn=0, swap=0, budget=0, mi=0, skip=0, ws=.1, ex=.1, mc=.3, steps=(1, 2), n=[2, 3, 3, 4, 4], vb=0, hist=0, lose=0, rev=0, prev=[None])


def rq(rng, k, s=4.):
    return dict(k=k, x=[rnd(rng.uniform(-s, s)), rnd(rng.uniform(-s, s))], y=[rnd(rng.uniform(-s, s)), rnd(rng.uniform(-s, s))],
                f=rng.choice('gggo'), of=rng.choice('gggo'))


def gen_read(rng, names, plan):
    """queries of 2-4 readers; they like to ask the same thing"""
    n = rng.choice([2, 2, 2, 3, 4])
    tgt = rng.choice(names) if not plan or rng.random() < .4 else rng.randrange(6)
    common = rng.choice(RQ if isinstance(tgt, int) else Q)
    q = []
    for i in range(n):
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = tgt if rng.random() < .8 else rng.choice(names)
            k = common if rng.random() < .45 else rng.choice(RQ if isinstance(t, int) else Q)
            if k in REGION_Q or not isinstance(t, int):
                q.append(dict(rq(rng, k), r=i, t=t, other=rng.choice(names)))
    return dict(op='read', n=n, q=q, s=rng.getrandbits(30), rate=rng.choice([.03, .1, .3, .5, .9]), first=rng.randrange(n))


def gen(rng, tier, i):
    plan = rng.random() < .5
    if plan:
        ops = gen_loop(rng, tier, PROF)
        names = [o['id'] for o in ops if o['op'] == 'spawn']
    else:
        names = ['b%d' % j for j in range(rng.choice([1, 1, 2, 2, 3]))]
        ops = [gen_spawn(rng, n, ('ellipse', 'spoly', 'poly', 'star')) for n in names]
        if rng.random() < .5:
            # as good as coinciding, so that readers of one are readers of the other
            for o in ops:
                if o['mm'] and 'pos' in o['mm'] and o['mm']['m'] in ('static', 'sin'):
                    o['mm']['pos'] = [rnd(rng.uniform(-1, 1)), rnd(rng.uniform(-1, 1))]
    if not names:
        names = ['b0']
    for _ in range(rng.choice([1, 1, 2, 3] if tier == 'quick' else [1, 2, 3, 6])):
        ops.append(gen_read(rng, names, plan))
        r = rng.random()
        if r < .5:
            ops.append(dict(op='tick', dt=rnd(rng.uniform(.05, 1.5))))
        elif r < .6:
            ops.append(dict(op='set_rot', id=rng.choice(names), r=rnd(rng.uniform(-4, 4))))
        elif r < .7:
            ops.append(dict(op='set_pos', id=rng.choice(names), p=[rnd(rng.uniform(-4, 4)), rnd(rng.uniform(-4, 4))]))
        if r < .7 and rng.random() < .3:
            # somebody has looked since
            ops.append(dict(op='look', id=rng.choice(names), q=[rq(rng, rng.choice(['polygon', 'kernel', 'loc']))]))
        if r < .7:
            ops.append(gen_read(rng, names, False))
    return dict(ops=ops)


def same(a, b):
    if type(a).__name__ == 'Polygon' or hasattr(a, 'wkb'):
        if not hasattr(b, 'wkb') or a.geom_type != b.geom_type:
            return False
        if a.is_empty or b.is_empty:
            return a.is_empty == b.is_empty
        return a.equals_exact(b, 1e-9) or (a.hausdorff_distance(b) < 1e-7 and abs(a.area - b.area) < 1e-6 * (1 + a.area))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.ndarray, float, int)) and not isinstance(a, bool):
        x, y = np.asarray(a, float), np.asarray(b, float)
        return x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
    return a == b


def loose(q, ob):
    """a dilated ellipse may be any shape between two bounds, and which one depends on what was asked before"""
    return q['k'] in ('copy', 'dilate') and type(ob).__name__ == 'Ellipse'


def show(a):
    return a.wkt[:200] if hasattr(a, 'wkt') else repr(a)[:200]


def execute(trace, ctx):
    CLOCK.clock = SimClock()
    w = PlanWorld(ctx)
    switched = 0
    moved = False
    taken_all = []
    rno = 0
    p = None
    try:
        for op in trace['ops']:
            k = op['op']
            if k == 'plan':
                try:
                    p = w.plan(op)
                except LibRaised as e:
                    raise OutOfDomain('planning raises: %s' % e)
            elif k == 'look':
                if op['id'] in w.b:
                    for q in op['q']:
                        if applies(w.b[op['id']].kind, q['k']):
                            ctx.call(ask, w.b[op['id']].ob, q)
            elif k == 'read':
                switched += read(trace, ctx, w, p, op, rno, moved, taken_all)
                rno += 1
            elif w.event(op):
                ctx.count('event:' + k)
                if k != 'spawn':
                    moved = True
    finally:
        ctx.extra = dict(switches=taken_all)
    ctx.nontrivial = switched > 0


def read(trace, ctx, w, p, op, rno, moved, taken_all):
    jobs = [[] for _ in range(op['n'])]
    for q in op['q']:
        t = q['t']
        if isinstance(t, int):
            if p is None or not p.flag or not p.clusters:
                continue
            c = p.clusters[t % len(p.clusters)]
            if not p.comb[t % len(p.clusters)]:
                continue
            if not applies(None, q['k'], combined(c.cluster_obstacle)) and not applies('spoly', q['k']):
                continue
            jobs[q['r']].append((q, c.cluster_obstacle, None, c))
        elif t in w.b and q['other'] in w.b and applies(w.b[t].kind, q['k']):
            jobs[q['r']].append((q, w.b[t].ob, w.b[q['other']].ob, None))
    if sum(1 for j in jobs if j) < 2:
        return 0

    def one(j):
        q, ob, other, cl = j
        return ask(ob, q, other=other, cl=cl)

    def seq():
        out = []
        for js in jobs:
            a = []
            for j in js:
                try:
                    a.append(('ok', one(j)))
                except Exception as e:          # noqa: what a single reader would get
                    a.append(('raised', type(e).__name__))
            out.append(a)
        return out
    r = branch(seq)
    if r[0] != 'ok':
        raise OutOfDomain('sequential readers: %s' % (r[1:],))
    expect = r[1]

    def reader(js):
        def run():
            a = []
            for j in js:
                try:
                    a.append(('ok', one(j)))
                except (Deadlock, StepLimit):
                    raise
                except Exception as e:          # noqa
                    a.append(('raised', type(e).__name__))
            return a
        return run
    if 'switches' in trace:
        sw = [s[1:] for s in trace['switches'] if s[0] == rno]
        s = CoopSched([reader(js) for js in jobs], switches=sw)
    else:
        s = CoopSched([reader(js) for js in jobs], rng=random.Random(op['s']), rate=op['rate'])
    res = s.run(op['first'])
    taken_all += [[rno] + t for t in s.taken]
    n = sum(1 for t in s.taken if t[0] > 0)
    ctx.count('fault:preemption', n)
    if s.waits:
        ctx.count('fault:lock-contention', s.waits)
    ctx.count('readers-of-regions' if any(j[3] is not None for js in jobs for j in js) else 'readers-of-bodies')
    ctx.count('readers-after-move' if moved else 'first-readers')
    ctx.state([(q['k'], q['t'], q['r']) for q in op['q']], s.taken)
    ctx.log('read', s.points, n)
    for i, (a, e) in enumerate(zip(res, expect)):
        ctx.ensure(a[0] == 'ok', 'reader-stuck', lambda: 'reader %d ended with %r' % (i, a[1]))
        for j, x, y in zip(jobs[i], a[1], e):
            ctx.ensure(x[0] == y[0] and (x[0] == 'ok' or x[1] == y[1]), 'reader-raised',
                       lambda: 'reader %d asking %s: %s, alone: %s' % (i, j[0]['k'], x[:1] + (show(x[1]),), y[:1] + (show(y[1]),)))
            ctx.ensure(x[0] != 'ok' or loose(j[0], j[1]) or same(x[1], y[1]), 'reader-other-answer',
                       lambda: 'reader %d asking %s of %s got %s, alone it gets %s' % (i, j[0]['k'], j[0]['t'], show(x[1]), show(y[1])))
    # and whoever comes afterwards
    for i, js in enumerate(jobs):
        for j, y in zip(js, expect[i]):
            try:
                x = ('ok', one(j))
            except Exception as e:              # noqa
                x = ('raised', type(e).__name__)
            ctx.ensure(x[0] == y[0] and (loose(j[0], j[1]) or same(x[1], y[1]) if x[0] == 'ok' else x[1] == y[1]), 'later-other-answer',
                       lambda: 'after the readers, %s of %s gives %s, it should be %s' % (j[0]['k'], j[0]['t'], show(x[1]), show(y[1])))
    return n
