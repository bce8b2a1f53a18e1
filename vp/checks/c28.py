"""C28: running on a cluster (dask, ray) means the same as running locally."""
from vp import clu, common

MODEL = ["ValuesRight", "OnlyNeeded", "NothingIfRejected", "OverridesNeverRun", "DownstreamOfFailureNotRun", "ReturnedComplete", "OnlySentRuns", "SentIsNeeded", "RefinesExec", "EventuallyAnswers"]


def check(rep, tier, seed):
    n = 1100 if tier == "quick" else 14000
    futs = common.start_models(rep, [("ClusterMC", "ClusterMC" if tier == "quick" else "ClusterMCDeep", MODEL, 4)])
    scs = [clu.scenario(seed, i) for i in range(n)]
    out = common.run_pool(rep, clu.execute, scs, procs=6, per=30)
    for par, mod in ((False, "ClusterTrace"), (True, "ParTrace")):
        traces, metas = clu.to_traces(scs, out, par)
        common.judge(rep, mod, traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["engines"] = sorted({sc["engine"] for sc in scs})
    rep.coverage["samples"] = [traces[0]]
