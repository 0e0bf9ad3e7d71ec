"""C07: any earlier outcome can be fed back as the previous plan."""
from ..planworld import gen_loop, run_loop

PROP = 'C07'
RUNS = dict(quick=1300, thorough=30000)
RULE = 'a run in which a plan was computed from the outcome of an earlier one; distinct by digest of the event and plan log'
PROBES = ['flag:0', 'flag:1', 'flag:2', 'plan-with-merged-cluster', 'complete-warm-plan', 'fed:incomplete', 'fed:late', 'fed:complete', 'robot-in-obstacle']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(mc=.35, budget=.3, mi=.2, skip=.2, n=[0, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7], steps=(3, 9), sticky=.4)
CAP = 6_000_000


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    # sometimes the robot or goal is where it should not be: the plan must fail, not crash
    for op in ops:
        if op['op'] == 'plan' and rng.random() < .08:
            op['rc'] = []
    if rng.random() < .1:
        k = [j for j, o in enumerate(ops) if o['op'] == 'plan']
        ops.insert(rng.choice(k), dict(op='robot', c=['goal']))
    return dict(ops=ops)


def execute(trace, ctx):
    def after(w, p):
        if p.prev:
            ctx.nontrivial = True
            for q in w.plans[:-1]:
                if q.clusters is p.prev:
                    ctx.count('fed:' + ('incomplete', 'complete', 'late')[q.flag])
        if not p.general:
            ctx.count('robot-in-obstacle')
        w.check_all(p)
    run_loop(trace, ctx, after)
