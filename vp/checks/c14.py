"""C14: questions about the graph (queries, exports, drawings)."""
from vp import sess


def check(rep, tier, seed):
    sess.run(rep, tier, seed, "query", 900, 12000)
