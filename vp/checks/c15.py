"""C15: loading and saving."""
from vp import common, io

MODEL = ["SaversTransparent", "SaverSavesTheResult", "LoaderReplaces", "OrderFree", "Specific"]


def check(rep, tier, seed):
    n = 900 if tier == "quick" else 12000
    futs = common.start_models(rep, [("IOMC", "IOMC" if tier == "quick" else "IOMCDeep", MODEL, 2)])
    scs = [io.scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, io.execute, scs, procs=6, per=20)
    traces, metas = io.to_traces(scs, res)
    common.judge(rep, "IOTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ev=traces[0]["ev"])]
