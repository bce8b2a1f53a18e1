"""C17: pipes and replaced functions."""
from vp import modrun


def check(rep, tier, seed):
    modrun.run(rep, tier, seed, "pipe", 1100, 12000)
