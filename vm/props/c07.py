"""Arbitrary compositions: random chains over all structure kinds."""
from .. import gen
from . import dump
from .common import rng_for
MIN_EXEC = {"quick": 100, "thorough": 300}


def check(run):
    run.rule = ("random chains of 1-5 structures/views over 1-4 base dimensions (incl. tuples, zero lengths, static and dynamic parameters); "
                "non-trivial: at least two recorded events (size plus a length or an element)")
    pool = gen.pool("mix", 400)
    if run.tier == "quick":
        pool = rng_for(run, "pick").sample(pool, 90)
    run.run_cases(dump.cases(run, pool, 6 if run.tier == "quick" else 20))
