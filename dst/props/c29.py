"""C29: obstacles share a region only because regions met. The history a plan reports is replayed as a refinement: every stage groups
the regions of the stage before exactly as they are connected, from every obstacle alone to the returned clusters."""
import itertools

from ..planworld import gen_loop, run_loop

PROP = 'C29'
RUNS = dict(quick=1200, thorough=28000)
RULE = 'a run with a judged stage that joined regions; distinct by digest of the event and plan log'
PROBES = ['stages:1', 'stages:2', 'stages:3', 'stages:4+', 'joined', 'kept-apart', 'joined-by-extension', 'given-up', 'flag:1', 'complete-warm-plan']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(mc=0., budget=.02, mi=.06, hist=1., n=[2, 3, 3, 4, 4, 5, 5, 6, 7, 8], steps=(2, 7))
APART = 1e-9


def gen(rng, tier, i):
    return dict(ops=gen_loop(rng, tier, PROF))


def find(up, i):
    while up[i] != i:
        i = up[i]
    return i


def groups(n, edges):
    up = list(range(n))
    for i, j in edges:
        up[find(up, i)] = find(up, j)
    return [find(up, i) for i in range(n)]


def members(p, stage):
    name = {id(o): n for n, o in zip(p.names, p.obstacles)}
    return [sorted(name[id(o)] for o in cl.obstacles) for cl in stage]


def check_joining(ctx, s, ms, regions, after):
    """after: member lists of the stage after the one with these regions"""
    must, may = [], []
    for (i, a), (j, b) in itertools.combinations(enumerate(regions), 2):
        d = a.distance(b)
        if d <= APART:
            may.append((i, j))
            if a.intersects(b) and a.intersection(b).area > 1e-9:
                must.append((i, j))
    gmust, gmay = groups(len(ms), must), groups(len(ms), may)
    at = {n: k for k, m in enumerate(after) for n in m}
    for i, m in enumerate(ms):
        ctx.ensure(len({at[n] for n in m}) == 1, 'taken-apart', lambda: 'stage %d: cluster %s is split in %s' % (s, m, after))
    for (i, a), (j, b) in itertools.combinations(enumerate(ms), 2):
        same = at[a[0]] == at[b[0]]
        if gmust[i] == gmust[j]:
            ctx.ensure(same, 'not-joined', lambda: 'stage %d: regions of %s and %s are connected, but the clusters stay apart' % (s, a, b))
        elif gmay[i] != gmay[j]:
            ctx.ensure(not same, 'joined-without-reason', lambda: 'stage %d: %s and %s are joined, but no regions connect them' % (s, a, b))
            ctx.count('kept-apart')
        if same:
            ctx.count('joined')
            ctx.nontrivial = True
        ctx.judged()


def check_history(p, ctx):
    if p.n_iter == 0 or not p.op.get('hist'):
        return
    H = p.history
    with ctx.judging('the history of a plan'):
        M = [members(p, st) for st in H]
        for s, ms in enumerate(M):
            ctx.ensure(sorted(n for m in ms for n in m) == sorted(p.names), 'stage-not-a-partition', lambda: 'stage %d: %s' % (s, ms))
        ctx.ensure(sorted(M[0]) == sorted([n] for n in p.names), 'first-stage', lambda: 'the history starts with %s' % M[0])
        if p.flag:
            ctx.ensure(len(H) == p.n_iter, 'stages', lambda: '%d stages of %d iterations' % (len(H), p.n_iter))
            ctx.ensure(sorted(M[-1]) == sorted(sorted(m) for m in p.members), 'last-stage', lambda: 'the history ends with %s, the plan has %s' % (M[-1], p.members))
            ctx.count('stages:%s' % (p.n_iter if p.n_iter < 4 else '4+'))
        else:
            # the stage at which the plan was given up follows the completed ones
            ctx.ensure(len(H) == p.n_iter + 1, 'stages', lambda: '%d stages of %d iterations, given up' % (len(H), p.n_iter))
            ctx.count('given-up')
        R = []
        for s in range(p.n_iter):
            r = [cl.polygon() for cl in H[s]]
            ctx.ensure(all(x is not None and not x.is_empty for x in r), 'stage-without-region', lambda: 'stage %d: %s' % (s, M[s]))
            R.append(r)
        for s in range(p.n_iter):
            nxt = M[s + 1] if s + 1 < len(M) else M[s]
            check_joining(ctx, s, M[s], R[s], nxt)
            if s + 1 < len(M):
                ctx.ensure(len(nxt) < len(M[s]), 'idle-stage', lambda: 'stage %d joins nothing, but is not the last' % s)
                if s:
                    ctx.count('joined-by-extension')
            # a cluster that goes on unchanged keeps its region
            if s + 1 < p.n_iter:
                was = {tuple(m): x for m, x in zip(M[s], R[s])}
                for m, x in zip(M[s + 1], R[s + 1]):
                    if tuple(m) in was:
                        ctx.ensure(x.equals_exact(was[tuple(m)], 0.), 'region-changed', lambda: 'stage %d: the region of %s changed although nothing joined it' % (s + 1, m))
        ctx.log('stages', M)


def execute(trace, ctx):
    run_loop(trace, ctx, lambda w, p: check_history(p, ctx), raising_ok=True)
