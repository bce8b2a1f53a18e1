"""C13: a request that cannot be satisfied is rejected before any function runs; a satisfiable one is not rejected."""
import random

from vp import common, engines, prog, sched, vp_rt
from vp.checks import c02

CLAUSES = {"ran-although-request-invalid", "invalid-request-answered", "valid-request-raised", "did-not-terminate",
           "invalid-request-validated", "spec-not-evaluable", "no-answer"}
TYPES = ["int", "bool", "str", "float", "list", "dict", "tuple", "Optional[int]", "Union[int, str]", "Union[str, list]",
         "Dict[str, int]", "Any"]


def scenario(seed, i):
    rng = common.rng_for(seed, "c13", i)
    P = prog.rand_program(rng, nmin=2, nmax=rng.choice([3, 5, 7]), p_opt=rng.choice([0, .3, .5]))
    typed = rng.random() < .6
    ty = {}
    if typed:
        for x in prog.leaves_of(P):
            ty[x] = rng.choice(TYPES)
        for nd in P["nodes"].values():
            nd["ann"] = {p: ty[p].replace("Optional", "typing.Optional").replace("Union", "typing.Union")
                         for p in nd["params"] if p in ty}
    P["ty"] = ty
    reqs = []
    for _ in range(rng.choice([1, 2, 3])):
        Q = c02.clean(c02.rand_request(rng, P, allow_fail=False))
        Q["ty"] = ty
        fault = rng.choice(["none", "missing", "missing", "unknown", "clash", "all"])
        if fault in ("missing", "all") and Q["inputs"]:
            for x in rng.sample(list(Q["inputs"]), rng.choice([1, 1, 2]) if len(Q["inputs"]) > 1 else 1):
                del Q["inputs"][x]
                Q["overrides"].pop(x, None)
        if fault == "unknown":
            Q["final"] = Q["final"] + [rng.choice(["nope", "a_missing", P["order"][0] + "_", P["order"][0] + "x"])]
            if Q["final"][-1] in prog.leaves_of(P) + list(P["nodes"]) + list(P["config"]):
                Q["final"].pop()
        if fault in ("clash", "all") and P["config"]:
            Q["inputs"] = dict(Q["inputs"])
            Q["inputs"][rng.choice(list(P["config"]))] = prog.rand_code(rng)
        # a requested outside value must be supplied (an unsupplied optional one has no defined answer)
        Q["final"] = [f for f in Q["final"] if not (f in prog.leaves_of(P) and f not in Q["inputs"] and f not in P["config"])]
        if not Q["final"]:
            Q["final"] = [P["order"][-1]]
        if ty and rng.random() < .5:      # make values well typed half of the time
            for x in list(Q["inputs"]):
                good = {"int": 50, "bool": 13, "str": 11, "float": 12, "list": 8, "dict": 10, "tuple": 7,
                        "Optional[int]": 60, "Union[int, str]": 3, "Union[str, list]": 9, "Dict[str, int]": 10}
                if x in ty and ty[x] in good:
                    Q["inputs"][x] = good[ty[x]]
        Q["mode"] = rng.choice(["execute", "execute", "validate"])
        reqs.append(Q)
    engine = rng.choice(["default", "default", "task:default:sync", "task:level:script"])
    return dict(P=P, reqs=reqs, engine=engine, sseed=rng.randrange(1 << 30))


def execute(sc):
    P = sc["P"]
    mods = prog.build_modules(prog.render(P))
    out = []
    try:
        rng = random.Random(sc["sseed"])
        s = sched.Schedule(rng=rng)
        extra = dict(local=sched.ScriptedExecutor(s, "local", True, record=False),
                     remote=sched.ScriptedExecutor(s, "remote", True, record=False))
        dr = engines.builder_for(P, mods, sc["engine"], extra=extra).build()
        for Q in sc["reqs"]:
            if Q["mode"] == "validate":
                vp_rt.reset()
                try:
                    dr.validate_execution(list(Q["final"]), inputs=prog.dec_map(Q["inputs"]),
                                          overrides=prog.dec_map(Q["overrides"]))
                    out.append(list(vp_rt.LOG) + [dict(ev="validated")])
                except Exception as ex:
                    out.append(list(vp_rt.LOG) + [dict(ev="raise", cls=type(ex).__name__, who="", msg=str(ex)[:200])])
            else:
                out.append(engines.run_request(dr, Q))
    finally:
        for m in mods:
            prog.drop_module(m)
    return out


to_traces = c02.to_traces


def check(rep, tier, seed):
    n = 1300 if tier == "quick" else 12000
    futs = common.start_models(rep, [("ExecMC", "ExecMC" if tier == "quick" else "ExecMCDeep",
                                      ["NothingIfRejected", "ReturnedComplete", "EventuallyAnswers"], 4)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=15)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "ExecTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["rejected_requests"] = sum(1 for t in traces if t["ev"][-1]["ev"] == "raise")
    rep.coverage["samples"] = [traces[0], traces[len(traces) // 2]]
