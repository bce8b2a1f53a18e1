"""C19: subdags."""
from vp import modrun


def check(rep, tier, seed):
    modrun.run(rep, tier, seed, "subdag", 600, 7000)
