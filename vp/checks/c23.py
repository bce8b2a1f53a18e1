"""C23: shipped adapters report exactly what happened and change nothing; the type checker refuses exactly what does not conform."""
from vp import adp, common, tyc

MODEL = ["AnyTakesAll", "UnionTakesMore", "UnionTakesNoMore", "UnionSymmetric", "AnnotatedIsNothing", "ListIsSequence", "TupleLengths", "MoreTakesMore"]


def check(rep, tier, seed):
    q = tier == "quick"
    futs = common.start_models(rep, [("TypeMC", "TypeMC", MODEL, 2)])
    scs = [adp.scenario(seed, i, False) for i in range(600 if q else 12000)]
    ts = [tyc.scenario(seed, i) for i in range(1200 if q else 25000)]
    res = common.run_pool(rep, adp.execute, scs, procs=6, per=30)
    traces, metas = adp.to_traces(scs, res)
    common.judge(rep, "AdaptersTrace", traces, metas, None)
    res = common.run_pool(rep, tyc.execute, ts, procs=6, per=30)
    traces2, metas2 = tyc.to_traces(ts, res)
    common.judge(rep, "TypeTrace", traces2, metas2, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ev=traces[0]["ev"]), dict(ev=traces2[0]["ev"])]
