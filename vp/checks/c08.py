"""C08: caching never changes what a request returns."""
from vp import cachegen, common, vp_rt

VALUE = {"argument-neither-computed-nor-cached", "wrong-argument-value", "failure-swallowed", "wrong-result-keys",
         "wrong-result-value", "not-executed-and-not-in-cache", "caching-raised", "wrong-error-raised", "second-answer",
         "call-after-answer", "did-not-terminate", "no-answer", "spec-not-evaluable", "unexpected-event-badresult",
         "unexpected-event-arguments-mutated", "unexpected-event-crash"}
CLAUSES = VALUE


def scenario(seed, i):
    rng = common.rng_for(seed, "c08", i)
    return history(rng)


def history(rng):
    if rng.random() < .25:       # a stale value under IGNORE is by design; the block oracle does not model it
        return cachegen.rand_history(rng, block=True, formats=True, kinds=["default", "recompute", "disable"])
    return cachegen.rand_history(rng, formats=True)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):
            r = [dict(ev="hang" if "hang" in r else "crash!")]
        traces.append(dict(ev=r))
        metas.append(dict(i=i, store=sc["store"], literal=sc.get("literal", False)))
    return traces, metas


def third(t):
    return sum(1 for x in t["ev"] if x["ev"] == "run") == 3


MODEL = ["Transparent", "Sound", "Justified", "DisableForces"]


def check(rep, tier, seed):
    n = 1500 if tier == "quick" else 8000
    futs = common.start_models(rep, [("CacheMC", "CacheMC" if tier == "quick" else "CacheMCDeep", MODEL, 3)])
    scs = [scenario(seed, i) for i in range(n)] + [cachegen.literal_history(common.rng_for(seed, "lit", i)) for i in range(4)]
    res = common.run_pool(rep, cachegen.execute, scs, procs=6, per=20)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "CacheTrace", traces, metas, CLAUSES, keyfn=lambda t, m, c: "resolve-config-literal" if m["literal"] and
                 c in ("wrong-result-value", "not-executed-and-not-in-cache", "wrong-argument-value") and third(t) else None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0]]
