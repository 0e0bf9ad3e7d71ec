"""C03: every region of a complete plan is starshaped about its reference point."""
from ..planworld import gen_loop, run_loop

PROP = 'C03'
RUNS = dict(quick=1100, thorough=26000)
RULE = 'a run with at least one complete plan that has a merged cluster; distinct by digest of the event and plan log'
PROBES = ['flag:0', 'flag:1', 'plan-with-merged-cluster', 'complete-warm-plan', 'convexified']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(mc=.2, budget=.03, mi=.03)


def gen(rng, tier, i):
    return dict(ops=gen_loop(rng, tier, PROF))


def execute(trace, ctx):
    def after(w, p):
        if p.flag:
            w.check_star(p)
            if any(len(m) > 1 for m in p.members):
                ctx.nontrivial = True
            if p.op.get('mc') and any(type(c.cluster_obstacle).__name__ == 'StarshapedPolygon' and cb for c, cb in zip(p.clusters, p.comb)):
                ctx.count('convexified')
    run_loop(trace, ctx, after, raising_ok=True)
