"""C01: the graph that is built is the one the modules and the configuration denote."""
from vp import sess


def check(rep, tier, seed):
    sess.run(rep, tier, seed, "build", 1200, 16000)
