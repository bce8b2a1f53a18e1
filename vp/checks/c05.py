"""C05: scheduling of tasks: dependency order, one hand-out per task, executor agreement, release, termination."""
import itertools
import random
import threading
import time

from hamilton.lifecycle import api as lapi

from vp import common, engines, pargen, prog, sched, vp_rt


def scenario(seed, i):
    """random program, random schedule"""
    rng = common.rng_for(seed, "c05", i)
    if rng.random() < .7:
        P = pargen.rand_par(rng, max_items=rng.choice([1, 3, 6]))
        grp = "blocks"
    else:
        P = pargen.rand_par(rng, max_items=2, regions=1)
        for n in P["order"]:            # same shape without blocks: ordinary nodes, any grouping
            nd = P["nodes"][n]
            nd["kind"] = "plain"
            for k in ("cparam", "len", "dyn", "step", "gen"):
                nd.pop(k, None)
        grp = rng.choice(["each", "one", "level", "blocks"])
    Q = dict(P)
    pool = P["collects"] + P["post"] + P["outside"]
    Q["final"] = list(dict.fromkeys(rng.sample(pool, min(len(pool), rng.choice([1, 1, 2]))) + [P["collects"][-1]]))
    Q["fail"] = [rng.choice(list(P["nodes"]))] if rng.random() < .3 else []
    return dict(P=P, Q=Q, grp=grp, sseed=rng.randrange(1 << 30), reps=1,
                fs=rng.choice([1, 2, 3, 4]) if rng.random() < .08 else 0, fsx=rng.choice(["local", "remote"]))


def enumerated(seed, i, length):
    """small program, all decision sequences of the given length"""
    rng = common.rng_for(seed, "c05e", i)
    P = pargen.rand_par(rng, max_items=2, regions=rng.choice([1, 1, 2]))
    Q = dict(P)
    Q["final"] = [P["collects"][-1]]
    Q["fail"] = [rng.choice(list(P["nodes"]))] if rng.random() < .3 else []
    return dict(P=P, Q=Q, grp="blocks", length=length)


def record(dr, Q, grp, exs):
    vp_rt.reset(Q["fail"])
    for x in exs:
        x.live = x.nsub = 0
    try:
        dr.execute(list(Q["final"]), inputs=prog.dec_map(Q["inputs"]), overrides={})
        tail = dict(ev="return")
    except Exception as ex:
        tail = dict(ev="raise", cls=type(ex).__name__, msg=str(ex)[:200], who=ex.name if isinstance(ex, vp_rt.Boom) else "")
    ev = [x for x in vp_rt.LOG if x["ev"] != "call"] + [tail]
    return ev


def build(P, mods, grp, s, lazy):
    lo, re_ = sched.ScriptedExecutor(s, "local", lazy), sched.ScriptedExecutor(s, "remote", lazy)
    dr = engines.builder_for(P, mods, f"task:{grp}:script", extra=dict(local=lo, remote=re_)).build()
    return dr, lo, re_


def execute(sc):
    P, Q = sc["P"], sc["Q"]
    mods = prog.build_modules(pargen.render(P))
    out = []
    try:
        if "length" in sc:
            for lazy in (True, False):
                s = sched.Schedule(choices=[])
                dr, lo, re_ = build(P, mods, "blocks", s, lazy)
                for bits in itertools.product([0, 1], repeat=sc["length"]):
                    s.choices, s.pos = list(bits), 0
                    ev = record(dr, Q, "blocks", (lo, re_))
                    if ev not in out:
                        out.append(ev)
        elif "cap" in sc:
            out.append(threads(sc, P, Q, mods))
        else:
            rng = random.Random(sc["sseed"])
            s = sched.Schedule(rng=rng, p_reject=rng.choice([0, .3, .7]), p_done=rng.choice([.1, .4, 1]))
            dr, lo, re_ = build(P, mods, sc["grp"], s, rng.random() < .6)
            if sc["fs"]:
                (lo if sc["fsx"] == "local" else re_).fail_submit = sc["fs"]
            out.append(record(dr, Q, sc["grp"], (lo, re_)))
            lo.fail_submit = re_.fail_submit = 0
            out.append(record(dr, Q, sc["grp"], (lo, re_)))   # the driver stays usable
    finally:
        for m in mods:
            prog.drop_module(m)
    return out


# ---- real thread pool: bound on simultaneous tasks, and actual parallelism
def thread_scenario(seed, i):
    rng = common.rng_for(seed, "c05t", i)
    P = pargen.rand_par(rng, max_items=6, regions=1)
    for n in P["order"]:
        nd = P["nodes"][n]
        if nd["kind"] == "expand":
            nd.update(len=rng.choice([2, 3, 5, 8]), dyn=0)
    Q = dict(P)
    Q["final"] = [P["collects"][-1]]
    Q["fail"] = [rng.choice(list(P["nodes"]))] if rng.random() < .2 else []
    return dict(P=P, Q=Q, grp="blocks", cap=rng.choice([1, 2, 3, 4]), sseed=rng.randrange(1 << 30))


class TaskRecorder(lapi.TaskExecutionHook):
    """rendezvous: the first tasks wait until as many as the limit run together;  hold: some tasks, fewer than the limit,
    run until all others have started - the remaining slots must be given back and reused"""
    def __init__(self, block, cap, jitter, rendezvous, hold=()):
        self.block, self.cap, self.jitter = block, cap, jitter
        self.rv, self.hold = rendezvous, hold
        self.n = 0
        self.lk = threading.Lock()
        self.go = threading.Event()

    def run_before_task_execution(self, *, task_id, run_id, nodes, inputs, overrides, **kw):
        x = "remote" if any(n.name in self.block for n in nodes) else "local"
        vp_rt.emit(ev="start", t=task_id, x=x)
        if x == "remote":
            with self.lk:
                idx = self.n
                self.n += 1
                if self.n >= self.rv:
                    self.go.set()
            if (not self.hold or idx in self.hold) and not self.go.wait(15):
                vp_rt.emit(ev="serialized", t=task_id)
                self.go.set()
            time.sleep(self.jitter())

    def run_after_task_execution(self, *, task_id, run_id, nodes, results, success, error, **kw):
        vp_rt.emit(ev="end", t=task_id)


def threads(sc, P, Q, mods):
    rng = random.Random(sc["sseed"])
    exp = [n for n in P["order"] if P["nodes"][n]["kind"] == "expand"][0]
    block, seen = set(), {exp}
    for n in P["order"]:
        nd = P["nodes"][n]
        if nd["kind"] == "plain" and seen & set(nd["params"]):
            seen.add(n)
            block.add(n)
    k = P["nodes"][exp]["len"]
    lk = threading.Lock()

    def jitter():
        with lk:
            return rng.choice([0, .001, .003])
    hold = rng.sample(range(k), min(sc["cap"] - 1, k - 1)) if rng.random() < .5 and not Q["fail"] else []
    rec = TaskRecorder(block, sc["cap"], jitter, 0 if Q["fail"] else k if hold else min(k, sc["cap"]), hold)
    if rec.rv == 0:
        rec.go.set()
    dr = engines.builder_for(P, mods, f"task:blocks:thread{sc['cap']}", adapters=[rec]).build()
    vp_rt.reset(Q["fail"])
    try:
        dr.execute(list(Q["final"]), inputs=prog.dec_map(Q["inputs"]))
    except Exception:
        pass
    return [x for x in vp_rt.LOG if x["ev"] != "call"]


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        p = pargen.spec_view(sc["Q"])
        p.update(execs=["local", "remote"], blocks=sc["grp"] == "blocks", cap=sc.get("cap", 0))
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):
            traces.append(dict(p=p, ev=[dict(ev="hang" if "hang" in r else "crash")]))
            metas.append(dict(i=i, grp=sc["grp"]))
            continue
        for j, ev in enumerate(r):
            traces.append(dict(p=p, ev=ev if "cap" not in sc else ev))
            metas.append(dict(i=i, run=j, grp=sc["grp"], threads="cap" in sc))
    return traces, metas


def check(rep, tier, seed):
    q = tier == "quick"
    futs = common.start_models(rep, [("TaskSched", "TaskSched" if q else "TaskSchedDeep",
                                      ["DepsFirst", "RunsOnlyProvisioned", "ReturnedMeansAll", "ReleasedAtEnd",
                                       "FailureReported", "NoHandoutAfterFailure", "Terminates"], 2)])
    scs = [scenario(seed, i) for i in range(500 if q else 6000)]
    scs += [enumerated(seed, i, 7 if q else 11) for i in range(24 if q else 60)]
    scs += [thread_scenario(seed, i) for i in range(60 if q else 600)]
    res = common.run_pool(rep, execute, scs, procs=6, per=40)
    traces, metas = to_traces(scs, res)
    for t, m in zip(traces, metas):      # thread runs have no answer event of their own
        if m.get("threads"):
            t["ev"] = [x for x in t["ev"]] + [dict(ev="stop")]
    common.judge(rep, "TaskTrace", traces, metas)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0], traces[-1]]
