"""C02: execution = functional evaluation; each required function once, nothing else; overrides short-circuit."""
from vp import common, engines, prog, vp_rt

CLAUSES = {"overridden-node-called", "unneeded-node-called", "unknown-node-called", "node-called-twice",
           "called-before-dependencies", "wrong-argument-value", "failure-swallowed", "required-node-not-called",
           "wrong-result-keys", "wrong-result-value", "valid-request-raised", "wrong-error-raised", "did-not-terminate",
           "call-after-answer", "no-answer", "spec-not-evaluable", "unexpected-event-badresult",
           "unexpected-event-arguments-mutated", "build-failed", "unexpected-event-crash"}


def rand_request(rng, P, allow_fail=True):
    Q = dict(P)
    nodes = list(P["nodes"])
    leaves = prog.leaves_of(P)
    Q["inputs"] = dict(P["inputs"])
    # values vary per request; sometimes omit optional-only inputs
    for x in list(Q["inputs"]):
        Q["inputs"][x] = prog.rand_code(rng)
        if all(x in nd["opt"] for nd in P["nodes"].values() if x in nd["params"]) and rng.random() < .5:
            del Q["inputs"][x]
    k = rng.choice([1, 1, 1, 2, 2, 3, len(nodes)])
    fin = rng.sample(nodes, min(k, len(nodes)))
    given = [x for x in leaves if x in Q["inputs"] or x in P["config"]]
    if given and rng.random() < .25:
        fin.append(rng.choice(given))
    if rng.random() < .1:
        fin.append(rng.choice(fin))
    if rng.random() < .12:              # an input no function asks for; it can still be requested
        x = "unused_" + rng.choice("pq")
        Q["inputs"][x] = prog.rand_code(rng)
        if rng.random() < .7:
            fin = [x] if rng.random() < .4 else fin + [x]
    if rng.random() < .02:
        fin = []
    rng.shuffle(fin)
    Q["final"] = fin
    Q["overrides"] = {}
    if rng.random() < .55:
        pool = nodes + [x for x in given if x in Q["inputs"]]
        for x in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3]))):
            Q["overrides"][x] = prog.rand_code(rng)
    Q["fail"] = []
    if allow_fail and rng.random() < .2:
        Q["fail"] = rng.sample(nodes, rng.choice([1, 1, 2]) if len(nodes) > 1 else 1)
    Q["none_in"] = rng.random() < .5
    return Q


def scenario(seed, i, **kw):
    rng = common.rng_for(seed, "c02", i)
    P = prog.rand_program(rng, nmin=2, nmax=rng.choice([4, 6, 9, 12]), p_opt=rng.choice([0, .25, .5]))
    if rng.random() < .15 and len(P["nodes"]) > 2:      # a config value that replaces a function
        P["config"] = dict(P["config"])
        P["config"][rng.choice(list(P["nodes"]))] = prog.rand_code(rng)
    engine = rng.choice(["default", "default", "default", "default", "legacy", "dictadapter"])
    return dict(P=P, reqs=[clean(rand_request(rng, P)) for _ in range(rng.choice([1, 2, 3]))], engine=engine)


def clean(Q):
    live = [n for n in Q["nodes"] if n not in Q["config"]]
    # only names that are part of the graph can be overridden
    known = set(live) | set(p for n in live for p in Q["nodes"][n]["params"])
    Q["overrides"] = {k: v for k, v in Q["overrides"].items() if k not in Q["config"] and k in known}
    if not live:
        Q["fail"] = []
    Q["fail"] = [f for f in Q["fail"] if f in live]
    return Q


def execute(sc):
    from hamilton import base, driver
    P = sc["P"]
    srcs = prog.render(P)
    mods = prog.build_modules(srcs)
    out = []
    try:
        if sc["engine"] == "legacy":
            dr = driver.Driver(prog.dec_map(P["config"]), *mods, adapter=base.SimplePythonGraphAdapter(base.DictResult()))
        elif sc["engine"] == "dictadapter":
            dr = driver.Builder().with_modules(*mods).with_config(prog.dec_map(P["config"])).with_adapters(
                base.DictResult()).build()
        else:
            dr = engines.builder_for(P, mods).build()
        for Q in sc["reqs"]:
            out.append(engines.run_request(dr, Q))
    finally:
        for m in mods:
            prog.drop_module(m)
    return out


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):      # hang / crash
            ev = "hang" if "hang" in r else "crash"
            traces.append(dict(p=engines.spec_view(sc["reqs"][0]), ev=[dict(ev=ev)]))
            metas.append(dict(i=i, engine=sc["engine"]))
            continue
        for j, ev in enumerate(r):
            traces.append(dict(p=engines.spec_view(sc["reqs"][j]), ev=ev))
            metas.append(dict(i=i, req=j, engine=sc["engine"]))
    return traces, metas


def check(rep, tier, seed):
    n = 1200 if tier == "quick" else 12000
    futs = common.start_models(rep, [("ExecMC", "ExecMC" if tier == "quick" else "ExecMCDeep",
                                      ["ValuesRight", "OnlyNeeded", "OverridesNeverRun", "DownstreamOfFailureNotRun",
                                       "ReturnedComplete", "EventuallyAnswers"], 4)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "ExecTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0], traces[len(traces) // 2]]
