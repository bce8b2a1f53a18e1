"""C27: the command line builds, versions, diffs and validates what is in the files."""
from vp import common, ver

MODEL = ["CleanIsEmpty", "Partition", "Mirror", "QuietMeansSame", "CosmeticInvisible"]


def check(rep, tier, seed):
    n = 700 if tier == "quick" else 9000
    futs = common.start_models(rep, [("VersionsMC", "VersionsMC" if tier == "quick" else "VersionsMCDeep", MODEL, 2)])
    scs = [ver.scenario(seed, i) for i in range(n)]
    out = common.run_pool(rep, ver.execute, scs, procs=6, per=40)
    traces, metas = ver.to_traces(scs, out)
    common.judge(rep, "VersionsTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["commands"] = sum(e["ev"] in ("version", "diff", "validate") for t in traces for e in t["ev"])
    rep.coverage["samples"] = [traces[1]["ev"][-1:]]
