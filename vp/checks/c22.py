"""C22: errors that are tolerated become the sentinel, and only those."""
from vp import adp, common

MODEL = ["Transparent", "CaughtStays", "OutcomeTotal", "NeverFed", "Once", "Keeps", "Fails"]


def check(rep, tier, seed):
    n = 1500 if tier == "quick" else 25000
    futs = common.start_models(rep, [("AdaptersMC", "AdaptersMC" if tier == "quick" else "AdaptersMCDeep", MODEL, 2)])
    scs = [adp.scenario(seed, i, True) for i in range(n)]
    res = common.run_pool(rep, adp.execute, scs, procs=6, per=30)
    traces, metas = adp.to_traces(scs, res)
    common.judge(rep, "AdaptersTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(decls=traces[0]["decls"], ev=traces[0]["ev"])]
