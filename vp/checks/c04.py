"""C04: parallel blocks: one evaluation per item, isolated, collected in item order, for any schedule."""
import random
import threading
import time

from vp import common, engines, pargen, prog, sched, vp_rt

CLAUSES = None


def scenario(seed, i):
    rng = common.rng_for(seed, "c04", i)
    P = pargen.rand_par(rng, max_items=rng.choice([2, 4, 4, 12]))
    reqs = []
    for _ in range(rng.choice([1, 1, 2])):
        Q = dict(P)
        Q["inputs"] = {x: prog.rand_code(rng) for x in P["inputs"]}
        pool = P["collects"] + P["post"] + P["outside"]
        fin = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
        if rng.random() < .95 and not any(f in P["collects"] + P["post"] for f in fin):
            fin.append(rng.choice(P["collects"]))
        if rng.random() < .2:
            fin.append(rng.choice([n for n in P["nodes"] if P["nodes"][n]["kind"] == "expand"]))
        Q["final"] = fin
        Q["overrides"], Q["ovseq"], Q["fail"] = {}, {}, []
        r = rng.random()
        if r < .15:
            x = rng.choice([n for n in P["nodes"] if P["nodes"][n]["kind"] == "expand"])
            Q["ovseq"] = {x: [prog.rand_code(rng) for _ in range(rng.randint(0, 4))]}
        elif r < .3:
            x = rng.choice(P["collects"] + P["outside"])
            Q["overrides"] = {x: prog.rand_code(rng)}
        elif r < .45:
            Q["fail"] = [rng.choice(list(P["nodes"]))]
        reqs.append(Q)
    exe = rng.choice(["sync", "thread2", "thread4", "script", "script", "script"])
    grp = rng.choice(["blocks", "default"])
    return dict(P=P, reqs=reqs, engine=f"task:{grp}:{exe}", sseed=rng.randrange(1 << 30))


def execute(sc):
    P = sc["P"]
    mods = prog.build_modules(pargen.render(P))
    out = []
    try:
        rng = random.Random(sc["sseed"])
        s = sched.Schedule(rng=rng, p_reject=rng.choice([0, .3, .6]), p_done=rng.choice([.15, .5, 1]))
        lazy = rng.random() < .6
        extra = dict(local=sched.ScriptedExecutor(s, "local", lazy, record=False),
                     remote=sched.ScriptedExecutor(s, "remote", lazy, record=False))
        dr = engines.builder_for(P, mods, sc["engine"], extra=extra).build()
        for Q in sc["reqs"]:
            vp_rt.reset(Q["fail"])
            if "thread" in sc["engine"]:
                lk = threading.Lock()

                def jitter(_n):
                    with lk:
                        d = rng.choice([0, 0, 0, .0005, .002])
                    if d:
                        time.sleep(d)
                vp_rt.HOOK[0] = jitter
            ovs = prog.dec_map(Q["overrides"])
            ovs.update({x: [vp_rt.dec(c) for c in v] for x, v in Q["ovseq"].items()})
            try:
                res = dr.execute(list(Q["final"]), inputs=prog.dec_map(Q["inputs"]), overrides=ovs)
                ev = list(vp_rt.LOG) + [dict(ev="return", res=pargen.enc_result(Q, res))]
            except Exception as ex:
                ev = list(vp_rt.LOG) + [dict(ev="raise", cls=type(ex).__name__, msg=str(ex)[:300],
                                             who=ex.name if isinstance(ex, vp_rt.Boom) else "")]
            out.append(ev)
    finally:
        for m in mods:
            prog.drop_module(m)
    return out


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):
            traces.append(dict(p=pargen.spec_view(sc["reqs"][0]), ev=[dict(ev="hang" if "hang" in r else "crash")]))
            metas.append(dict(i=i, engine=sc["engine"]))
            continue
        for j, ev in enumerate(r):
            traces.append(dict(p=pargen.spec_view(sc["reqs"][j]), ev=ev))
            metas.append(dict(i=i, req=j, engine=sc["engine"]))
    return traces, metas


def check(rep, tier, seed):
    n = 900 if tier == "quick" else 9000
    futs = common.start_models(rep, [("ParMC", "ParMC" if tier == "quick" else "ParMCDeep",
                                      ["NeverTooMany", "BagsMatch", "CollectAfterAll", "CollectInOrder",
                                       "EventuallyAnswers"], 4)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=10)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "ParTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0], traces[len(traces) // 2]]
