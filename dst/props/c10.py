"""C10: see properties.jsonl; engine in dst/bodyworld.py"""
import copy
import math

from ..bodyworld import QK, gen_history, run_history

PROP = 'C10'
RUNS = dict(quick=6000, thorough=100000)
RULE = 'a run with at least one applied event after the spawns and at least one judged answer; distinct by digest of the event and answer log'
PROBES = ['q:' + k for k in sorted(set(QK[PROP]))]
STATE_MEASURE = 'distinct (shape kind, query kind, frames, verdict class, motion kind) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'


def nudge(rng, n):
    if rng.random() < .3:
        return dict(op='tick', dt=10 ** rng.uniform(-5, -2))
    h = lambda: rng.choice([-1, 1]) * 10 ** rng.uniform(-5, -2)
    k = rng.random()
    d = h()
    return dict(op='nudge', id=n, d=[h(), h()] if k < .3 else [d, -d] if k < .5 else [0., 0.], r=h() if k < .3 or .5 <= k < .7 else math.pi if k > .85 else 0.,
                mirror=.7 <= k < .85)


def gen(rng, tier, i):
    big = tier == 'thorough'
    out = []
    for op in gen_history(rng, rng.randrange(1, 4), rng.randrange(6, 60 if big else 30), QK[PROP],
                          shapes=('ellipse', 'spoly', 'spoly', 'poly', 'star')):
        out.append(op)
        if op['op'] == 'query' and rng.random() < .3:
            out += [nudge(rng, op['id']), copy.deepcopy(op)]
    return dict(ops=out)


def execute(trace, ctx):
    run_history(trace, ctx)
