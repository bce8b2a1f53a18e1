"""C10: the cache survives lost, corrupted and torn entries, crashes at any point, and concurrent processes."""
from vp import cachegen, common
from vp.checks import c08, c09

CLAUSES = c08.VALUE | {"executed-although-cached", "not-executed-although-behaviour-demands", "executed-twice"}


def scenario(seed, i):
    rng = common.rng_for(seed, "c10", i)
    r = rng.random()
    kinds = ["default", "default", "recompute", "disable"]
    if r < .12:        # an entry vanishes between lookup and read
        h = cachegen.rand_history(rng, kinds=kinds, impure=False, nruns=rng.choice([3, 4]))
        h["fmt"] = {}
        h["store"], h["family"] = "vanish", "vanish"
        h["script"] = [rng.random() < .4 for _ in range(40)]
        return h
    if r < .5:         # faults between runs
        h = cachegen.rand_history(rng, block=rng.random() < .25, kinds=kinds, impure=False, formats=True, nruns=rng.choice([3, 4, 5]))
        h["store"] = "file"
        steps = []
        for j, st in enumerate(h["steps"]):
            if j:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    steps.append(dict(op="FAULT", r=rng.randrange(1 << 30)))
            steps.append(st)
        h["steps"] = steps
        h["family"] = "faults"
        return h
    h = cachegen.rand_history(rng, kinds=kinds, impure=False, nruns=rng.choice([3, 4, 4]), fails=False, formats=r < .75)
    h["store"] = "file"
    for st in h["steps"]:
        st["reuse"] = False
    if r < .8:         # crash at a store operation
        steps = []
        for st in h["steps"]:
            if rng.random() < .6:
                c = dict(st, op="crashrun", crash=[rng.randint(1, 8), rng.choice(["before", "after"]),
                                                   rng.choice([None, 0, .3, .9])])
                if not st["engine"].startswith("task"):
                    c["engine"] = "default"
                steps.append(c)
                if rng.random() < .7:
                    steps.append(st)
                    if rng.random() < .5:
                        steps.append(st)
            else:
                steps.append(st)
        h["steps"] = steps
        h["family"] = "crash"
        return h
    runs = h["steps"]  # concurrent processes
    k = rng.choice([2, 3, 4])
    same = rng.random() < .5
    grp = [runs[0] if same else rng.choice(runs) for _ in range(k)]
    h["steps"] = ([runs[0]] if rng.random() < .3 else []) + [dict(op="conc", runs=grp)] + [runs[0], runs[-1], runs[0]]
    h["family"] = "conc"
    return h


def execute(h):
    """faults are aimed at values the earlier runs produced"""
    return cachegen.execute(h)


def check(rep, tier, seed):
    n = 900 if tier == "quick" else 8000
    futs = common.start_models(rep, [("CacheMC", "CacheMC" if tier == "quick" else "CacheMCDeep", c08.MODEL, 3)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=30)
    traces, metas = c08.to_traces(scs, res)
    for m in metas:
        m["family"] = scs[m["i"]]["family"]
    common.judge(rep, "CacheTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0]]
    rep.coverage["families"] = {f: sum(1 for s in scs if s["family"] == f) for f in ("vanish", "faults", "crash", "conc")}
