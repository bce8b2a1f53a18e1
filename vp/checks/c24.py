"""C24: with_columns hands on the dataframe with exactly the computed columns."""
from vp import cols, common

MODEL = ["Appends", "OnlySelected", "NoTwice", "Rows", "Irrelevant", "OtherColumns", "TwoSteps"]


def check(rep, tier, seed):
    n = 1200 if tier == "quick" else 25000
    futs = common.start_models(rep, [("ColsMC", "ColsMC" if tier == "quick" else "ColsMCDeep", MODEL, 2)])
    scs = [cols.scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, cols.execute, scs, procs=6, per=30)
    traces, metas = cols.to_traces(scs, res)
    common.judge(rep, "ColsTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ws=traces[0]["ws"], ev=traces[0]["ev"])]
