"""C16: parameterising and extracting decorators."""
from vp import modrun


def check(rep, tier, seed):
    modrun.run(rep, tier, seed, "param", 1100, 12000)
