"""C07: the async driver means the same as the in-memory driver, for any interleaving, also with concurrent requests."""
import asyncio

from vp import common, engines, prog, vp_rt
from vp.checks import c02

CLAUSES = c02.CLAUSES | {"unexpected-event-serialized"}


def executed(Q):
    """needed nodes (only used to choose which functions take part in the rendezvous)"""
    live = {n for n in Q["nodes"] if n not in Q["config"]}
    need, todo = set(), [f for f in Q["final"] if f in live]
    while todo:
        n = todo.pop()
        if n in need or n in Q["overrides"]:
            continue
        need.add(n)
        todo += [p for p in Q["nodes"][n]["params"] if p in live]
    return need, live


def scenario(seed, i):
    rng = common.rng_for(seed, "c07", i)
    P = prog.rand_program(rng, nmin=2, nmax=rng.choice([4, 6, 9]), p_opt=rng.choice([0, .25, .5]))
    if rng.random() < .15 and len(P["nodes"]) > 2:
        P["config"] = dict(P["config"])
        P["config"][rng.choice(list(P["nodes"]))] = prog.rand_code(rng)
    P["async"] = {n: rng.random() < .7 for n in P["nodes"]}
    reqs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        Q = c02.clean(c02.rand_request(rng, P, allow_fail=rng.random() < .4))
        if not Q["final"]:
            Q["final"] = [P["order"][-1]]
        Q["yields"] = {n: rng.choice([0, 0, 1, 2, 5]) for n in P["nodes"]}
        need, live = executed(Q)
        Q["rv"] = []
        if rng.random() < .3:
            Q["rv"] = [n for n in need if P["async"][n] and not
                       any(p in need for p in Q["nodes"][n]["params"])]
        reqs.append(Q)
    return dict(P=P, reqs=reqs, engine="async", concurrent=rng.random() < .6, legacy=rng.random() < .2)


def execute(sc):
    from hamilton import async_driver, base
    P = sc["P"]
    srcs = [prog.HEADER for _ in range(max(P["mod"].values()) + 1)]
    for n, nd in P["nodes"].items():
        if P["async"][n]:
            srcs[P["mod"][n]] += ("async " + prog.fn_source(n, nd, call="afn")).replace("return _rt", "return await _rt")
        else:
            srcs[P["mod"][n]] += prog.fn_source(n, nd, call="sfn")
    mods = prog.build_modules(srcs)

    async def one(dr, Q):
        r = dict(log=[], fail=set(Q["fail"]), yields=Q["yields"], rv=set(Q["rv"]), rv_started=set(),
                 rv_event=asyncio.Event())
        vp_rt.REQ.set(r)
        ins, ovs = prog.dec_map(Q["inputs"]), prog.dec_map(Q["overrides"])
        kw = dict(inputs=ins, overrides=ovs)
        if Q["none_in"]:
            kw = {k: (v or None) for k, v in kw.items()}
        try:
            res = await dr.execute(list(Q["final"]), **kw)
            log = list(r["log"])
            if isinstance(res, dict):
                log.append(dict(ev="return", res={str(k): vp_rt.enc(v) for k, v in res.items()}))
            else:
                log.append(dict(ev="badresult"))
        except Exception as ex:
            log = list(r["log"])
            log.append(dict(ev="raise", cls=type(ex).__name__,
                            who=ex.name if isinstance(ex, vp_rt.Boom) else "", msg=str(ex)[:200]))
        return log

    async def main():
        if sc["legacy"]:
            dr = async_driver.AsyncDriver(prog.dec_map(P["config"]), *mods, result_builder=base.DictResult())
        else:
            dr = await async_driver.Builder().with_modules(*mods).with_config(prog.dec_map(P["config"])).build()
        if sc["concurrent"]:
            return list(await asyncio.gather(*[asyncio.create_task(one(dr, Q)) for Q in sc["reqs"]]))
        return [await asyncio.create_task(one(dr, Q)) for Q in sc["reqs"]]

    try:
        return asyncio.run(main())
    finally:
        for m in mods:
            prog.drop_module(m)


to_traces = c02.to_traces


def check(rep, tier, seed):
    n = 1300 if tier == "quick" else 12000
    futs = common.start_models(rep, [("ExecMC", "ExecMC" if tier == "quick" else "ExecMCDeep",
                                      ["ValuesRight", "OnlyNeeded", "OverridesNeverRun", "DownstreamOfFailureNotRun",
                                       "ReturnedComplete", "EventuallyAnswers"], 4)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=15)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "ExecTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0], traces[len(traces) // 2]]
