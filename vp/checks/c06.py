"""C06: lifecycle hooks wrap what they claim to wrap: pairing, order, arguments, success flags."""
import asyncio
import random
import threading

from hamilton.lifecycle import api as lapi
from hamilton.lifecycle import base as lbase

from vp import common, engines, pargen, prog, sched, vp_rt
from vp.checks import c02

KINDS = ["pre_graph", "post_graph", "pre_task", "post_task", "pre_node", "post_node"]
SYNC = dict(pre_graph=lbase.BasePreGraphExecute, post_graph=lbase.BasePostGraphExecute,
            pre_task=lbase.BasePreTaskExecute, post_task=lbase.BasePostTaskExecute,
            pre_node=lbase.BasePreNodeExecute, post_node=lbase.BasePostNodeExecute)
ASYNC = dict(pre_graph=lbase.BasePreGraphExecuteAsync, post_graph=lbase.BasePostGraphExecuteAsync,
             pre_node=lbase.BasePreNodeExecuteAsync, post_node=lbase.BasePostNodeExecuteAsync)


def scenario(seed, i):
    rng = common.rng_for(seed, "c06", i)
    engine = rng.choice(["default", "default", "task", "task", "task", "async"])
    if engine == "task" and rng.random() < .7:
        P = pargen.rand_par(rng, max_items=3)
        par = True
        engine = f"task:blocks:{rng.choice(['sync', 'thread2', 'thread4', 'script'])}"
    else:
        P = prog.rand_program(rng, nmin=2, nmax=rng.choice([4, 6]), p_opt=.2)
        par = False
        if engine == "task":
            engine = f"task:{rng.choice(['each', 'one', 'level', 'blocks'])}:{rng.choice(['sync', 'thread2', 'script'])}"
    ads = []
    for _ in range(rng.choice([0, 1, 2])):
        ads.append(sorted(rng.sample(KINDS, rng.choice([1, 2, 3, 6]))))
    ads.insert(rng.randrange(len(ads) + 1), list(KINDS))
    reqs = []
    for _ in range(rng.choice([1, 2])):
        if par:
            Q = dict(P)
            Q["inputs"] = {x: prog.rand_code(rng) for x in P["inputs"]}
            Q["final"] = list(dict.fromkeys([P["collects"][-1]] + P["post"][:rng.choice([0, 1])]))
            Q["overrides"], Q["ovseq"] = {}, {}
            Q["fail"] = [rng.choice(list(P["nodes"]))] if rng.random() < .25 else []
        else:
            Q = c02.clean(c02.rand_request(rng, P))
            Q["none_in"] = False
        r = rng.random()
        live = [n for n in P["nodes"] if n not in P["config"]]
        Q["hookfail"] = (rng.choice(["pre_node", "post_node"]), rng.randrange(len(ads)), rng.choice(live)) if r < .25 and (engine != "async" or len(ads) == 1) else None
        reqs.append(Q)
    return dict(P=P, par=par, engine=engine, ads=ads, reqs=reqs, method=not engine.startswith("async") and rng.random() < .3,
                mpos=rng.randrange(len(ads) + 1), sseed=rng.randrange(1 << 30))


class Ctl:
    """shared by the adapters of one scenario"""

    def __init__(self, P, par):
        self.P, self.par, self.fault = P, par, None

    def kw(self, name, kwargs):
        nd = self.P["nodes"].get(name)
        cp = nd.get("cparam") if nd else None
        return {k: ([vp_rt.enc(x) for x in v] if k == cp and isinstance(v, list) else vp_rt.enc(v)) for k, v in kwargs.items()}

    def is_expand(self, name):
        return self.P["nodes"].get(name, {}).get("kind") == "expand"

    def boom(self, kind, idx, name):
        return self.fault == (kind, idx, name)


def who(err):
    return "none" if err is None else err.name if isinstance(err, vp_rt.Boom) else type(err).__name__


def events(ctl, idx, emit):
    def pre_graph(self, *, run_id, graph, final_vars, inputs, overrides):
        emit(ev="pre_graph", a=idx, run=run_id, final=list(final_vars), inputs=prog.enc_map(inputs or {}),
             overrides=prog.enc_map(overrides or {}))

    def post_graph(self, *, run_id, graph, success, error, results):
        emit(ev="post_graph", a=idx, run=run_id, ok=bool(success), who=who(error),
             results={k: vp_rt.enc(v) for k, v in (results or {}).items()} if success else {})

    def pre_task(self, *, run_id, task_id, nodes, inputs, overrides):
        emit(ev="pre_task", a=idx, run=run_id, t=task_id)

    def post_task(self, *, run_id, task_id, nodes, results, success, error):
        emit(ev="post_task", a=idx, run=run_id, t=task_id, ok=bool(success))

    def pre_node(self, *, run_id, node_, kwargs, task_id=None):
        b = ctl.boom("pre_node", idx, node_.name)
        emit(ev="pre_node", a=idx, run=run_id, n=node_.name, t=task_id or "", kw=ctl.kw(node_.name, kwargs), boom=b)
        if b:
            raise vp_rt.Boom(node_.name)

    def post_node(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
        b = ctl.boom("post_node", idx, node_.name)
        emit(ev="post_node", a=idx, run=run_id, n=node_.name, t=task_id or "", kw=ctl.kw(node_.name, kwargs), ok=bool(success),
             who=who(error), res=vp_rt.enc(result) if success else -2, cmp=not ctl.is_expand(node_.name), boom=b)
        if b:
            raise vp_rt.Boom(node_.name)
    return dict(pre_graph=pre_graph, post_graph=post_graph, pre_task=pre_task, post_task=post_task, pre_node=pre_node,
                post_node=post_node)


def make_adapter(ctl, idx, kinds, emit, is_async):
    table = ASYNC if is_async else SYNC
    fns = events(ctl, idx, emit)
    ns = {}
    for k in kinds:
        if k not in table:
            continue
        f = fns[k]
        if is_async:
            def mk(f):
                async def af(self, **kw):
                    return f(self, **kw)
                return af
            f = mk(f)
        ns[k + "_execute"] = f
    bases = tuple(table[k] for k in kinds if k in table)
    if not bases:
        return None
    return type(f"Ad{idx}", bases, ns)()


class Method(lapi.NodeExecutionMethod):
    def __init__(self, via):
        self.via = via

    def run_to_execute_node(self, *, node_name, node_tags, node_callable, node_kwargs, task_id, **kw):
        self.via.on = True
        try:
            return node_callable(**node_kwargs)
        finally:
            self.via.on = False


def execute(sc):
    P, out = sc["P"], []
    if sc["engine"] == "async":
        return execute_async(sc)
    mods = prog.build_modules(pargen.render(P) if sc["par"] else prog.render(P))
    ctl = Ctl(P, sc["par"])
    via = threading.local()
    vp_rt.TH[0] = True
    try:
        ads = [make_adapter(ctl, i, k, vp_rt.emit, False) for i, k in enumerate(sc["ads"])]
        if sc["method"]:
            ads.insert(sc["mpos"], Method(via))
        rng = random.Random(sc["sseed"])
        s = sched.Schedule(rng=rng, p_reject=.2, p_done=.5)
        extra = dict(local=sched.ScriptedExecutor(s, "local", True, record=False),
                     remote=sched.ScriptedExecutor(s, "remote", True, record=False))
        dr = engines.builder_for(P, mods, sc["engine"], adapters=ads, extra=extra).build()
        orig = vp_rt.LOG
        for Q in sc["reqs"]:
            vp_rt.reset(Q["fail"])
            vp_rt.VIA = via
            ctl.fault = tuple(Q["hookfail"]) if Q["hookfail"] else None
            ins, ovs = prog.dec_map(Q["inputs"]), prog.dec_map(Q["overrides"])
            try:
                res = dr.execute(list(Q["final"]), inputs=ins, overrides=ovs)
                ev = list(orig) + [dict(ev="return", res=prog.enc_map(res))]
            except Exception as ex:
                ev = list(orig) + [dict(ev="raise", who=who(ex), msg=str(ex)[:200])]
            out.append(ev)
    finally:
        vp_rt.TH[0] = False
        for m in mods:
            prog.drop_module(m)
    return out


def execute_async(sc):
    from hamilton import async_driver
    P = sc["P"]
    rng = random.Random(sc["sseed"])
    srcs = [prog.HEADER for _ in range(max(P["mod"].values()) + 1)]
    for n, nd in P["nodes"].items():
        if rng.random() < .7:
            srcs[P["mod"][n]] += ("async " + prog.fn_source(n, nd, call="afn")).replace("return _rt", "return await _rt")
        else:
            srcs[P["mod"][n]] += prog.fn_source(n, nd, call="sfn")
    mods = prog.build_modules(srcs)
    ctl = Ctl(P, False)

    def emit(**ev):
        vp_rt.REQ.get()["log"].append(ev)

    async def main():
        ads = [make_adapter(ctl, i, k, emit, True) for i, k in enumerate(sc["ads"])]
        ads = [a for a in ads if a is not None]
        dr = await async_driver.Builder().with_modules(*mods).with_config(prog.dec_map(P["config"])).with_adapters(*ads).build()
        out = []
        for Q in sc["reqs"]:
            r = dict(log=[], fail=set(Q["fail"]), yields={n: rng.choice([0, 0, 1, 3]) for n in P["nodes"]}, rv=set())
            vp_rt.REQ.set(r)
            ctl.fault = tuple(Q["hookfail"]) if Q["hookfail"] else None
            try:
                res = await dr.execute(list(Q["final"]), inputs=prog.dec_map(Q["inputs"]), overrides=prog.dec_map(Q["overrides"]))
                ev = list(r["log"]) + [dict(ev="return", res=prog.enc_map(res))]
            except Exception as ex:
                ev = list(r["log"]) + [dict(ev="raise", who=who(ex), msg=str(ex)[:200])]
            for _ in range(12):
                await asyncio.sleep(0)     # let orphaned coroutines of a failed request finish before the next one
            for x in ev:
                if "n" in x:
                    x["th"] = x["n"]
            out.append(ev)
        return out
    try:
        return asyncio.run(main())
    finally:
        for m in mods:
            prog.drop_module(m)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        asy = sc["engine"] == "async"
        h = {k: [a for a, ks in enumerate(sc["ads"]) if k in ks and not (asy and k not in ASYNC)] for k in KINDS}
        p0 = dict(h=h, tasks=sc["engine"].startswith("task"), method=sc["method"], prev=[], ev_res={}, **{"async": asy})
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):
            Q = sc["reqs"][0]
            traces.append(dict(p=dict(p0, final=Q["final"], inputs=Q["inputs"], overrides=Q["overrides"]),
                               ev=[dict(ev="hang" if "hang" in r else "crash")]))
            metas.append(dict(i=i, engine=sc["engine"]))
            continue
        prev = []
        for j, ev in enumerate(r):
            Q = sc["reqs"][j]
            p = dict(p0, final=Q["final"], inputs=Q["inputs"], overrides=Q["overrides"], prev=list(prev))
            if ev[-1]["ev"] == "return":
                p["ev_res"] = ev[-1]["res"]
            prev += list({x["run"] for x in ev if "run" in x})
            for x in ev:
                if x["ev"] == "call":
                    x.setdefault("via", False)
            traces.append(dict(p=p, ev=ev))
            metas.append(dict(i=i, req=j, engine=sc["engine"]))
    return traces, metas


def check(rep, tier, seed):
    q = tier == "quick"
    futs = common.start_models(rep, [("LifeMC", "LifeMC" if q else "LifeMCDeep", ["BodyWrapped", "GraphWraps", "AtEnd", "Ends"], 2)])
    scs = [scenario(seed, i) for i in range(1300 if q else 13000)]
    res = common.run_pool(rep, execute, scs, procs=6, per=15)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "LifeTrace", traces, metas)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0], traces[-1]]
