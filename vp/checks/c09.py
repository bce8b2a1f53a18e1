"""C09: cached work is reused exactly when it may be; behaviours are obeyed; the cache's own account is true."""
from vp import cachegen, common
from vp.checks import c08

CLAUSES = {"executed-although-cached", "executed-twice", "unneeded-node-called", "not-executed-although-behaviour-demands",
           "not-executed-and-not-in-cache", "log-wrong-executions", "log-wrong-retrievals", "wrong-behaviour-resolved",
           "result-not-stored", "result-stored-although-not-to-be-cached", "spec-not-evaluable", "caching-raised"}


def scenario(seed, i):
    rng = common.rng_for(seed, "c09", i)
    return c08.history(rng)


def check(rep, tier, seed):
    n = 1500 if tier == "quick" else 8000
    futs = common.start_models(rep, [("CacheMC", "CacheMC" if tier == "quick" else "CacheMCDeep", c08.MODEL, 3)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, cachegen.execute, scs, procs=6, per=20)
    traces, metas = c08.to_traces(scs, res)
    common.judge(rep, "CacheTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0]]
