"""C03: task-based execution, under any grouping, executor and completion order, means the same as in-memory execution."""
import random
import time

from vp import common, engines, prog, sched, vp_rt
from vp.checks import c02

CLAUSES = c02.CLAUSES


def scenario(seed, i):
    rng = common.rng_for(seed, "c03", i)
    P = prog.rand_program(rng, nmin=2, nmax=rng.choice([3, 5, 8, 10]), p_opt=rng.choice([0, .25, .5]))
    if rng.random() < .15 and len(P["nodes"]) > 2:
        P["config"] = dict(P["config"])
        P["config"][rng.choice(list(P["nodes"]))] = prog.rand_code(rng)
    grp = rng.choice(["blocks", "blocks", "each", "one", "level", "level", "default"])
    exe = rng.choice(["sync", "thread2", "thread3", "script", "script", "script"])
    return dict(P=P, engine=f"task:{grp}:{exe}", sseed=rng.randrange(1 << 30),
                reqs=[c02.clean(c02.rand_request(rng, P, allow_fail=rng.random() < .5)) for _ in range(rng.choice([1, 2]))])


def execute(sc):
    P = sc["P"]
    mods = prog.build_modules(prog.render(P))
    out = []
    try:
        rng = random.Random(sc["sseed"])
        s = sched.Schedule(rng=rng, p_reject=rng.choice([0, .3, .6]), p_done=rng.choice([.2, .5, 1]))
        lazy = rng.random() < .6
        extra = dict(local=sched.ScriptedExecutor(s, "local", lazy, record=False),
                     remote=sched.ScriptedExecutor(s, "remote", lazy, record=False))
        dr = engines.builder_for(P, mods, sc["engine"], extra=extra).build()
        for Q in sc["reqs"]:
            vp_rt.HOOK[0] = None
            out.append(engines.run_request(dr, Q))
    finally:
        for m in mods:
            prog.drop_module(m)
    return out


to_traces = c02.to_traces


def check(rep, tier, seed):
    n = 1300 if tier == "quick" else 12000
    futs = common.start_models(rep, [("ExecMC", "ExecMC" if tier == "quick" else "ExecMCDeep",
                                      ["ValuesRight", "OnlyNeeded", "OverridesNeverRun", "DownstreamOfFailureNotRun",
                                       "ReturnedComplete", "EventuallyAnswers"], 4)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=15)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "ExecTrace", traces, metas, CLAUSES)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0], traces[len(traces) // 2]]
