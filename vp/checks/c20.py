"""C20: builders, copies and drivers do not interfere."""
from vp import sess


def check(rep, tier, seed):
    sess.run(rep, tier, seed, "session", 700, 8000)
