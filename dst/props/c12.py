"""C12: see properties.jsonl; engine in dst/bodyworld.py"""
from ..bodyworld import QK, gen_history, run_history

PROP = 'C12'
RUNS = dict(quick=6000, thorough=100000)
RULE = 'a run with at least one applied event after the spawns and at least one judged answer; distinct by digest of the event and answer log'
PROBES = ['q:' + k for k in sorted(set(QK[PROP]))]
STATE_MEASURE = 'distinct (shape kind, query kind, frames, verdict class, motion kind) tuples'
STUB = 'clock (time module), numpy global random stream seed, stdout'


def gen(rng, tier, i):
    big = tier == 'thorough'
    return dict(ops=gen_history(rng, rng.randrange(1, 4), rng.randrange(6, 60 if big else 30), QK[PROP],
                                shapes=('ellipse', 'ellipse', 'spoly', 'poly', 'star'), clones=False))


def execute(trace, ctx):
    run_history(trace, ctx)
