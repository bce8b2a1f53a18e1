"""C25: the result object holds exactly the requested outputs."""
from vp import common, res

MODEL = ["Exists", "KeepsAll", "AddsNone", "Rect", "Shrinks", "MatrixShape"]


def check(rep, tier, seed):
    n = 2500 if tier == "quick" else 40000
    futs = common.start_models(rep, [("ResultsMC", "ResultsMC" if tier == "quick" else "ResultsMCDeep", MODEL, 2)])
    scs = [res.scenario(seed, i) for i in range(n)]
    out = common.run_pool(rep, res.execute, scs, procs=6, per=30)
    traces, metas = res.to_traces(scs, out)
    common.judge(rep, "ResultsTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(vals=traces[0]["vals"], ev=traces[0]["ev"])]
