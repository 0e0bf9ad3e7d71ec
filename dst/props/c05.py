"""C05: limits are honoured and the exit flag is truthful. Every limited plan is compared with forked twins without limits."""
import numpy as np
import shapely
import shapely.geometry as sg

from .. import geom
from ..bodyworld import rnd
from ..planworld import COMPLETE, INCOMPLETE, LATE, branch, digest, gen_loop, run_loop
from ..seams import CLOCK

PROP = 'C05'
RUNS = dict(quick=380, thorough=9000)
RULE = 'a run in which a limit cut a plan short that completes without it; distinct by digest of the event, plan and limit log'
PROBES = ['limit-not-reached', 'cut-by-iterations', 'cut-by-time', 'cut-before-last-iteration', 'cut-before-convexifying', 'iterations-enough', 'late-flag']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(mc=.45, budget=0, mi=0, n=[1, 2, 3, 4, 4, 5, 5, 6, 7], steps=(1, 4), groups=.1, hist=.3)
SHRINK_IN = ('lim',)


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    for op in ops:
        if op['op'] != 'plan':
            continue
        lim = []
        for _ in range(rng.randrange(2, 5)):
            k = rng.choice(['mi', 'mi', 'late', 'last', 'convex', 'first', 'rate', 'rate', 'mad', 'both'])
            v = dict(k=k)
            if k in ('mi', 'both'):
                v['mi'] = rng.choice([1, 1, 2, 2, 3, 4, 9])
            if k in ('late', 'rate', 'mad', 'both'):
                # fractions of the time the plan needs
                v['f'] = rng.choice([0., rnd(10 ** rng.uniform(-3, 0)), rnd(rng.uniform(.3, 1.2)), rnd(rng.uniform(.8, 1.)), 1.01, 3.])
                v['rate'] = rng.choice([1e-6, 1e-5, 1e-7])
                if rng.random() < .3:
                    v['cost'] = rng.choice([1e-6, 1e-4])
                if rng.random() < .2:
                    v['quantum'] = rng.choice([1e-3, 1e-2])
            if k == 'mad':
                v['jumps'] = [[rng.choice('rs'), int(10 ** rng.uniform(0, 4)), rnd(rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 4))]
                              for _ in range(rng.randrange(1, 4))]
            if k in ('last', 'convex'):
                v['f'] = rnd(rng.random())
            lim.append(v)
        op['lim'] = lim
        op['clock'] = {}
        op.pop('lose', None)
    return dict(ops=ops)


HUGE = 1e7     # seconds: a machine suspended in the middle of a plan
BUDGET = 1e6   # milliseconds


def limited(op, v, U, S_last, S_conv):
    """op with the limit of v; None if v has no meaning for this plan"""
    o = dict(op)
    k = v['k']
    if 'mi' in v:
        o['mi'] = v['mi']
    if k in ('rate', 'late', 'mad', 'both'):
        need = U['steps'] * v['rate'] * 1000
        o['budget'] = v['f'] * need
        o['clock'] = {a: v[a] for a in ('rate', 'cost', 'quantum', 'jumps') if a in v}
    elif k == 'first':
        # suspended right after the plan took its start time
        o['budget'], o['clock'] = BUDGET, dict(jumps=[['r', 2, HUGE]])
    elif k == 'last':
        if S_last is None:
            return None
        hi = int(S_last * .9) - 100 - 20 * len(U['members'])
        if hi < 30:
            return None
        o['budget'], o['clock'] = BUDGET, dict(jumps=[['s', 30 + int(v['f'] * (hi - 30)), HUGE]])
    elif k == 'convex':
        if S_conv is None:
            return None
        o['budget'], o['clock'] = BUDGET, dict(jumps=[['s', S_conv - 25, HUGE]])
    return o


def execute(trace, ctx):
    def run(w, op, judge=True):
        def f():
            p = w.plan(op)
            if judge:
                w.check_all(p)
                if op.get('hist'):
                    check_history(ctx, p)
            nonconvex = [geom.hull(r).area - r.area > 1e-3 for r in p.regions if r is not None]
            return dict(d=digest(p), flag=p.flag, n=p.n_iter, steps=p.steps, elapsed=p.elapsed, members=p.members, nonconvex=nonconvex,
                        regions=[None if r is None else r.wkb for r in p.regions])
        return branch(f)

    def before(w, op):
        if not op.get('lim'):
            return
        r = run(w, dict(op, clock={}))
        if r[0] != 'ok':
            ctx.count('unlimited-plan-failed')
            return
        U = r[1]
        S_last = S_conv = None
        if U['n'] > 1 and U['flag'] == COMPLETE:
            r = run(w, dict(op, clock={}, mi=U['n'] - 1), judge=False)
            if r[0] == 'ok':
                S_last = r[1]['steps']
        P = None
        if op.get('mc') and U['flag'] == COMPLETE:
            r = run(w, dict(op, clock={}, mc=False), judge=False)
            if r[0] == 'ok':
                P = r[1]
                S_conv = P['steps']
        chosen = None
        for v in op['lim']:
            o = limited(op, v, U, S_last, S_conv)
            if o is None:
                continue
            ctx.count('fault:' + {'mi': 'iteration-cap', 'both': 'iteration-cap-and-budget', 'mad': 'clock-jumps', 'rate': 'time-budget',
                                  'late': 'time-budget', 'first': 'stall-at-start', 'last': 'stall-in-clustering',
                                  'convex': 'stall-before-convexifying'}[v['k']])
            chosen = chosen or o
            r = run(w, o)
            what = 'with limit %s: ' % {a: o[a] for a in ('mi', 'budget', 'clock') if a in o}
            if r[0] == 'viol':
                ctx.viol('limited-' + r[1], what + r[2])
            if r[0] == 'raised':
                ctx.viol('raised-' + r[1], what + r[2])
            if r[0] == 'skip':
                continue
            V = r[1]
            ctx.judged()
            ctx.log('limit', v['k'], V['flag'], V['n'], U['flag'], U['n'])
            ctx.state('limit', v['k'], V['flag'], V['n'], U['flag'], U['n'])
            if V['flag'] == LATE:
                ctx.count('late-flag')
            capped = 'mi' in v and U['n'] > v['mi']
            timed = o.get('budget') is not None and not (v['k'] != 'mad' and V['elapsed'] + 1000 * v.get('quantum', 0) <= o['budget'])
            if not capped and not timed and not ('mi' in v and U['flag'] == INCOMPLETE):
                ctx.ensure(V['d'] == U['d'], 'limit-changes-plan', lambda: what + 'not reached, but flag %s n_iter %s clusters %s instead of %s %s %s' %
                           (V['flag'], V['n'], V['members'], U['flag'], U['n'], U['members']))
                ctx.count('limit-not-reached')
                if 'mi' in v:
                    ctx.count('iterations-enough')
            if V['flag'] == COMPLETE:
                ctx.ensure(U['flag'] == COMPLETE and V['d'] == U['d'], 'limit-changes-plan',
                           lambda: what + 'complete, but not the plan without limit (flag %s)' % U['flag'])
            if V['flag'] == LATE:
                ctx.ensure(U['flag'] == COMPLETE and op.get('mc') and timed, 'late-without-reason', lambda: what + 'out of time for convex regions; unlimited flag %s' % U['flag'])
                ctx.ensure(sorted(map(sorted, V['members'])) == sorted(map(sorted, U['members'])), 'late-grouping', lambda: what + 'clusters %s, unlimited %s' % (V['members'], U['members']))
            if capped:
                ctx.ensure(V['flag'] == INCOMPLETE, 'cap-ignored', lambda: what + 'flag %s after %d iterations' % (V['flag'], V['n']))
                ctx.ensure(V['n'] <= v['mi'], 'cap-ignored', lambda: what + '%d iterations' % V['n'])
                if U['flag']:
                    ctx.count('cut-by-iterations')
            elif V['flag'] == INCOMPLETE and U['flag'] and timed:
                ctx.count('cut-by-time')
            if V['flag'] == INCOMPLETE and U['flag']:
                ctx.nontrivial = True
            if v['k'] == 'first' and U['members']:
                ctx.ensure(V['flag'] == INCOMPLETE, 'finished-late', lambda: what + 'time ran out before the first obstacle was looked at, flag %s' % V['flag'])
            if v['k'] == 'last':
                ctx.ensure(V['flag'] == INCOMPLETE, 'finished-late', lambda: what + 'time ran out before the last of %d iterations, flag %s' % (U['n'], V['flag']))
                ctx.count('cut-before-last-iteration')
            if v['k'] == 'convex' and any(P['nonconvex']):
                ctx.ensure(V['flag'] == LATE, 'finished-late', lambda: what + 'time ran out before regions were made convex, flag %s' % V['flag'])
                ctx.ensure(V['regions'] == P['regions'], 'late-regions', lambda: what + 'not the regions without convexification')
                ctx.count('cut-before-convexifying')
        if chosen:
            for a in ('mi', 'budget', 'clock'):
                if a in chosen:
                    op[a] = chosen[a]

    def after(w, p):
        w.check_all(p)
    ops = [dict(o) for o in trace['ops']]
    run_loop(dict(trace, ops=ops), ctx, after, before_plan=before)


def check_history(ctx, p):
    with ctx.judging('the iteration history'):
        ctx.ensure(isinstance(p.history, list), 'history', lambda: type(p.history).__name__)
