"""C12: data quality checks."""
from vp import common, dq

MODEL = ["CheckedBeforeUse", "FailureIsBad", "EndsRight", "WarnTransparent", "RawUnchecked", "Terminates", "laws of the single checks"]


def check(rep, tier, seed):
    n = 1100 if tier == "quick" else 16000
    futs = common.start_models(rep, [("DQMC", "DQMC" if tier == "quick" else "DQMCDeep", MODEL, 2)])
    scs = [dq.scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, dq.execute, scs, procs=6, per=30)
    traces, metas = dq.to_traces(scs, res)
    common.judge(rep, "DQTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ev=traces[0]["ev"])]
