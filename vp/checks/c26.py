"""C26: shipped data adapters do what they are told."""
from vp import common, shipped

MODEL = ["FaithfulMeans", "DropShows", "AlterShows", "LastSaved", "Isolated"]


def check(rep, tier, seed):
    n = 1200 if tier == "quick" else 16000
    futs = common.start_models(rep, [("ShippedMC", "ShippedMC" if tier == "quick" else "ShippedMCDeep", MODEL, 2)])
    scs = [shipped.scenario(seed, i) for i in range(n)]
    out = common.run_pool(rep, shipped.execute, scs, procs=6, per=30)
    traces, metas = shipped.to_traces(scs, out)
    common.judge(rep, "ShippedTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["adapters"] = len(shipped.CLASSES)
    rep.coverage["formats"] = len(shipped.FORMATS)
    rep.coverage["samples"] = [traces[1]["ev"][:2]]
