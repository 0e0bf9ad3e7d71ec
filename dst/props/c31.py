"""C31: the reported times are true. Time is lost inside one activity of the planner, and has to show up there and nowhere else."""
from ..bodyworld import rnd
from ..planworld import COMPLETE, INCOMPLETE, LATE, branch, digest, gen_loop, run_loop
from ..seams import MON

PROP = 'C31'
RUNS = dict(quick=700, thorough=16000)
RULE = 'a run with a plan during which the machine stalled inside an activity of the planner; distinct by digest of the event and plan log'
PROBES = ['stall:clustering', 'stall:kernels', 'stall:hulls', 'stall:convexifying', 'late-in-the-plan', 'no-convexifying', 'given-up', 'cut-short']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(mc=.5, budget=0., mi=.04, n=[1, 2, 3, 4, 4, 5, 5, 6, 7], steps=(1, 5))
# library functions that belong to one activity, whoever calls them during a plan
AT = dict(get_intersection_clusters=0, admissible_kernel=1, list_intersection=1, compute_kernel_points=2, kernel_starshaped_hull=2)
WHAT = ('clustering', 'kernels', 'hulls', 'convexifying')
SHRINK_IN = ('st',)


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    for op in ops:
        if op['op'] == 'plan':
            op['clock'] = dict(rate=rng.choice([1e-7, 1e-6, 1e-5]), cost=rng.choice([0., 1e-6, 1e-4]), start=rng.choice([0., 1.7e9]))
            op['st'] = [dict(at=rng.choice(sorted(AT) + ['convex', 'convex']), f=rnd(rng.random()) if rng.random() < .6 else rng.choice([0., 1.]),
                             d=rnd(10 ** rng.uniform(0, 5))) for _ in range(rng.randrange(1, 4))]
    return dict(ops=ops)


def execute(trace, ctx):
    def stalled(w, op, stall):
        MON.stall = {k: [0, dict(stall.get(k, {}))] for k in AT}
        try:
            p = w.plan(op)
            return p, {k: v[0] for k, v in MON.stall.items()}
        finally:
            MON.stall = None

    def judge(p, ctx):
        with ctx.judging('reported times'):
            t = [float(x) for x in p.timing]
            ctx.ensure(len(t) == 4, 'times', lambda: repr(t))
            # clocks that show a date have a resolution of 1e-7 s
            slop = 1e-9 * p.elapsed + (.05 if p.op['clock'].get('start') else 1e-6)
            ctx.ensure(min(t) >= -slop, 'negative-time', lambda: 'times %s' % t)
            ctx.ensure(sum(t) <= p.elapsed + slop, 'more-than-elapsed', lambda: 'times %s add up to %g ms, the plan took %g ms' % (t, sum(t), p.elapsed))
            if p.flag == INCOMPLETE:
                ctx.ensure(not any(t), 'given-up', lambda: 'a plan that was given up reports %s' % t)
                ctx.count('given-up')
            elif not p.op.get('mc'):
                ctx.ensure(t[3] == 0, 'no-convexifying', lambda: 'times %s without making regions convex' % t)
                ctx.count('no-convexifying')
        return t

    def before(w, op):
        if not op.get('st'):
            return
        def base():
            p, calls = stalled(w, op, {})
            return dict(t=judge(p, ctx), flag=p.flag, steps=p.steps, calls=calls, d=digest(p), elapsed=p.elapsed)
        r = branch(base)
        if r[0] == 'viol':
            ctx.viol(r[1], r[2])
        if r[0] != 'ok' or r[1]['flag'] != COMPLETE:
            return
        U = r[1]
        conv = None
        if op.get('mc') and not op.get('budget'):
            r = branch(lambda: w.plan(dict(op, mc=False)).steps)
            if r[0] == 'ok' and U['steps'] - r[1] > 150:
                conv = r[1]
        for v in op['st']:
            o, st = dict(op), {}
            if v['at'] == 'convex':
                if conv is None:
                    continue
                o['clock'] = dict(op['clock'], jumps=[['s', conv + 20 + int(v['f'] * (U['steps'] - conv - 120)), v['d']]])
                k = 3
            else:
                n = U['calls'][v['at']]
                if not n:
                    continue
                c = 1 + int(round(v['f'] * (n - 1)))
                st = {v['at']: {c: v['d']}}
                k = AT[v['at']]
                if c > 1 and c == n:
                    ctx.count('late-in-the-plan')

            def run():
                p, _ = stalled(w, o, st)
                return dict(t=judge(p, ctx), d=digest(p), elapsed=p.elapsed)
            r = branch(run)
            ctx.count('fault:stall-in-an-activity')
            what = 'stall of %g ms in %s (%s): ' % (v['d'] * 1e3, WHAT[k], v['at'])
            if r[0] == 'viol':
                ctx.viol(r[1], what + r[2])
            if r[0] == 'raised':
                ctx.viol('raised-' + r[1], what + r[2])
            if r[0] != 'ok':
                continue
            V = r[1]
            ctx.ensure(V['d'] == U['d'], 'stall-changes-plan', lambda: what + 'another plan')
            tol = 1e-6 * v['d'] * 1e3 + .2
            for j in range(4):
                more = V['t'][j] - U['t'][j]
                ctx.ensure(abs(more - (v['d'] * 1e3 if j == k else 0)) <= tol, 'time-misattributed',
                           lambda: what + 'the time for %s went from %g to %g ms' % (WHAT[j], U['t'][j], V['t'][j]))
            ctx.count('stall:' + WHAT[k])
            ctx.nontrivial = True
            ctx.log('stall', v['at'], k)
            if k < 3 and conv is not None:
                # the time also runs out while regions are made convex: what was lost before is still reported
                d2 = v['d'] * 10 + U['elapsed'] * 1e-3
                late = conv + 20 + int(v['f'] * (U['steps'] - conv - 120))
                o2 = dict(op, budget=v['d'] * 2e3 + U['elapsed'] * 2, clock=dict(op['clock'], jumps=[['s', late, d2]]))

                def run2():
                    p, _ = stalled(w, o2, st)
                    return dict(t=judge(p, ctx), flag=p.flag)
                r = branch(run2)
                if r[0] == 'viol':
                    ctx.viol(r[1], what + r[2])
                if r[0] == 'raised':
                    ctx.viol('raised-' + r[1], what + r[2])
                if r[0] != 'ok' or r[1]['flag'] != LATE:
                    continue
                t2 = r[1]['t']
                ctx.count('cut-short')
                for j in range(3):
                    more = t2[j] - U['t'][j]
                    ctx.ensure(abs(more - (v['d'] * 1e3 if j == k else 0)) <= tol, 'time-misattributed-when-cut-short',
                               lambda: what + 'the time for %s went from %g to %g ms' % (WHAT[j], U['t'][j], t2[j]))
                ctx.ensure(d2 * 1e3 - tol <= t2[3] <= d2 * 1e3 * (1 + 1e-6) + U['t'][3] + tol, 'time-misattributed-when-cut-short',
                           lambda: what + 'stalled for %g ms when making regions convex, reported %g' % (d2 * 1e3, t2[3]))

    def after(w, p):
        judge(p, ctx)
    run_loop(trace, ctx, after, before_plan=before, raising_ok=True)
