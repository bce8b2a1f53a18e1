"""C18: configuration selects implementations."""
from vp import modrun


def check(rep, tier, seed):
    modrun.run(rep, tier, seed, "cond", 700, 8000)
