"""C06: plans do not depend on the clock or on being observed. The same history is simulated twice: bare with a frozen
clock, and observed (prints, timing, history, drawings) under a hostile clock."""
import hashlib
import random

import numpy as np

from ..bodyworld import rnd
from ..core import LibRaised
from ..planworld import PlanWorld, branch, count_faults, digest, gen_loop, run_loop
from ..seams import CLOCK, SimClock

PROP = 'C06'
RUNS = dict(quick=420, thorough=12000)
RULE = 'a run with a complete plan that was observed in at least one way and whose clock misbehaved; distinct by digest of both logs'
PROBES = ['observed:verbose', 'observed:history', 'observed:obstacle', 'observed:cluster', 'observed:clustering', 'observed:star_hull', 'observed:adm_ker',
          'fault:clock-jump-back', 'fault:coarse-clock', 'complete-warm-plan', 'flag:0']
STATE_MEASURE = 'distinct (flag, iterations, cluster sizes, own regions, kind of previous plan, made convex) tuples of plans'
PROF = dict(budget=0, mi=.05, hist=.35, vb=.5, mc=.35, steps=(2, 6))
WHAT = ['obstacle', 'obstacle', 'cluster', 'clustering', 'star_hull', 'adm_ker']


def gen(rng, tier, i):
    ops = gen_loop(rng, tier, PROF)
    out = []
    for op in ops:
        if op['op'] == 'plan':
            op.pop('np', None)
            if rng.random() < .8:
                r = rng.random()
                c = dict(rate=rng.choice([0., 1e-7, 1e-5]), cost=rng.choice([0., 1e-6, 1e-2, .3, 8.]))
                if r < .6:
                    c['jumps'] = [[rng.choice('rs'), int(10 ** rng.uniform(0, 4)), rnd(rng.choice([-1, -1, 1]) * 10 ** rng.uniform(-3, 5))]
                                  for _ in range(rng.randrange(1, 6))]
                if r > .5:
                    c['quantum'] = rng.choice([1e-3, .015, 1., 100.])
                c['start'] = rng.choice([0., 1.7e9, 1., -5.])
                op['clock'] = c
            if op.get('vb'):
                if rng.random() < .4:
                    op.pop('tv')
                elif rng.random() < .3:
                    op.pop('vb')
        if op['op'] != 'spawn' and rng.random() < .25:
            out.append(dict(op='draw', what=rng.choice(WHAT), i=rng.randrange(8), render=rng.random() < .1, name=rng.random() < .5, ref=rng.random() < .5))
        out.append(op)
    out.append(dict(op='draw', what=rng.choice(WHAT), i=rng.randrange(8), render=False, name=True, ref=True))
    out.append(dict(out[max(j for j, o in enumerate(out) if o['op'] == 'plan')]))
    return dict(ops=out)


def rng_state():
    s = np.random.get_state()
    return hashlib.sha256(s[1].tobytes() + repr((s[2], s[3], s[4], random.getstate()[1])).encode()).hexdigest()


def draw(w, op, ctx):
    import matplotlib.pyplot as plt
    import starshaped_hull as sh
    kw = dict(xlim=[-5, 5], ylim=[-5, 5]) if op['i'] % 2 else {}
    cl = w.plans[-1].clusters if w.plans else []
    what = op['what']
    call = lambda f, *a, **k: ctx.call(f, *a, what='drawing (%s)' % what, **k)
    if what == 'obstacle':
        ns = sorted(w.b)
        if not ns:
            return
        call(w.b[ns[op['i'] % len(ns)]].ob.draw, show_name=op['name'], show_reference=op['ref'])
    elif not cl:
        return
    elif what == 'cluster':
        call(cl[op['i'] % len(cl)].draw)
    elif what == 'clustering':
        call(sh.draw_clustering, cl, w.x, w.xg, **kw)
    elif what == 'star_hull':
        call(sh.draw_star_hull, cl, w.x, w.xg, **kw)
    elif what == 'adm_ker':
        call(sh.draw_adm_ker, cl, w.x, w.xg, **kw)
    ctx.count('observed:' + what)
    if op.get('render'):
        plt.gcf().canvas.draw()
    plt.close('all')


def simulate(trace, ctx, observed):
    CLOCK.clock = SimClock()
    w = PlanWorld(ctx)
    log = []
    seen = hostile = done = False
    for op in trace['ops']:
        if op['op'] == 'draw':
            if observed:
                draw(w, op, ctx)
                seen = True
                log.append(('rng', rng_state()))
            else:
                log.append(('rng', rng_state()))
            continue
        if op['op'] == 'plan':
            o = dict(op)
            if not observed:
                for a in ('vb', 'tv', 'hist'):
                    o.pop(a, None)
                o['clock'] = {}
            else:
                count_faults(ctx, op)
                for a, b in (('vb', 'verbose'), ('tv', 'verbose'), ('hist', 'history')):
                    if op.get(a):
                        ctx.count('observed:' + b)
                        seen = True
                if op.get('clock'):
                    hostile = True
            p = w.plan(o)
            done = done or bool(p.flag)
            log.append(('plan', digest(p), rng_state()))
        else:
            w.event(op)
            if observed:
                count_faults(ctx, op)
    return log, bool(seen and hostile and done), ctx


def execute(trace, ctx):
    a = branch(lambda: simulate(trace, ctx, False)[0])
    if a[0] != 'ok':
        ctx.count('bare-run-failed')
        from ..core import OutOfDomain
        raise OutOfDomain('the bare history fails: %s' % (a[1:],))
    try:
        log, ctx.nontrivial, _ = simulate(trace, ctx, True)
    except LibRaised as e:
        ctx.viol('observation-raises-' + type(e.exc).__name__, str(e))
    for j, (x, y) in enumerate(zip(a[1], log)):
        ctx.judged()
        if x == y:
            continue
        if x[0] == 'rng' or x[1] == y[1]:
            ctx.viol('random-stream-moved', 'the random stream differs after step %d (%s)' % (j, x[0]))
        names = ('flag', 'n_iter', 'clusters', 'regions', 'kernel points', 'reference points', 'identifiers', 'names')
        diff = [n for n, u, v in zip(names, x[1], y[1]) if u != v]
        ctx.viol('plan-differs', 'step %d: %s differ between the bare and the observed run (flag %s / %s)' % (j, ', '.join(diff), x[1][0], y[1][0]))
