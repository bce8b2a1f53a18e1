"""Tracked executions: what the backend holds afterwards against what happened."""
import asyncio
import datetime
import gc
import hashlib
import importlib.util
import logging
import os
import random
import shutil
import sys
import tempfile
import threading
import time

from vp import common, io_rt, prog, track_be, track_rt

NK = 18


def scenario(seed, i):
    rng = common.rng_for(seed, "trackrun", i)
    kind = rng.choice(["plain", "plain", "par", "par", "par", "async"])
    progs = []
    for v in range(rng.choice([1, 1, 2])):
        fs, names = [], ["root"]
        if kind == "par":
            for j in range(rng.choice([1, 2, 3])):
                fs.append(dict(n=f"step{j}", ps=["item" if j == 0 else f"step{j-1}"] + (["root"] if rng.random() < .3 else []), ms=rng.choice([0, 2, 5, 15]), failat=-1, k=rng.randrange(NK)))
            if rng.random() < .25:
                rng.choice(fs)["failat"] = rng.randrange(4)
        else:
            for j in range(rng.choice([1, 2, 3, 5])):
                n = rng.choice(["a", "b", "c_1", "mean", "out"]) + str(j)
                fs.append(dict(n=n, ps=rng.sample(names, min(len(names), rng.choice([0, 1, 2]))), ms=rng.choice([0, 0, 1, 3]), fail=rng.random() < .07, k=rng.randrange(NK)))
                names.append(n)
        progs.append(fs)
    execs = []
    fr = rng.choice([.1, .3, .8])
    many = kind == "plain" and rng.random() < .3
    for _ in range(rng.choice([6, 10]) if many else rng.choice([1, 2, 3, 4])):
        p = rng.randrange(len(progs))
        pool = [f["n"] for f in progs[p]] if kind != "par" else ["total"]
        execs.append(dict(p=p, fresh=rng.random() < fr, final=sorted(set(rng.choice(pool) for _ in range(rng.choice([1, 2])))),
                          how=rng.choice(["execute", "execute", "mat"]) if kind == "plain" else "execute", mid=f"m{rng.randrange(3)}",
                          twin=kind == "plain" and rng.random() < .2, bad=rng.random() < .06, gc=rng.random() < .5,
                          brk=rng.choice(["hook", "result"]) if kind == "plain" and rng.random() < .12 else ""))
    return dict(kind=kind, progs=progs, execs=execs, items=rng.choice([0, 1, 3, 4, 6]), threads=rng.choice([0, 2, 4, 4]), same=rng.random() < .5,
                strat=rng.choice([None, None, 1, 2, 3, 0.0, 1.0]) if kind == "par" else None, batch=rng.choice([1, 3, 100]), sseed=rng.randrange(1 << 30))


def source(sc, p):
    aio = sc["kind"] == "async"
    d, b = ("async def", "await _rt.abody") if aio else ("def", "_rt.body")
    s = "from typing import Any\nfrom hamilton.htypes import Parallelizable, Collect\nfrom vp import track_rt as _rt\n\n"
    s += f"{d} root(xid: int) -> Any:\n    return {b}('root', 0, False, 0)\n\n"
    if sc["kind"] == "par":
        s += f"def item(root: Any) -> Parallelizable[int]:\n    for i in range({sc['items']}):\n        yield i\n\n"
    for f in sc["progs"][p]:
        ps = ", ".join(f"{q}: Any" if q != "item" else "item: int" for q in f["ps"])
        if "failat" in f:
            fail = f"item == {f['failat']}" if "item" in f["ps"] else "False"
        else:
            fail = repr(f["fail"])
        s += f"{d} {f['n']}({ps}) -> Any:\n    return {b}({f['n']!r}, {f['ms']}, {fail}, {f['k']})\n\n"
    if sc["kind"] == "par":
        last = sc["progs"][p][-1]["n"]
        s += f"def total({last}: Collect[Any]) -> Any:\n    list({last})\n    return _rt.body('total', 0, False, 0)\n\n"
    return s


def show(v):
    r = repr(v)
    return type(v).__name__ + (":" + r if "object at" not in r else "")


def execute(sc):
    logging.disable(logging.CRITICAL)
    from hamilton import base, driver, lifecycle, registry
    from hamilton.execution import executors
    from hamilton.io.materialization import to
    from hamilton.lifecycle import base as lbase
    from hamilton_sdk import adapters
    import hamilton_sdk.driver as sdkd
    sp, url = track_be.space()
    tmp = tempfile.mkdtemp(prefix="vp-track-")
    old = os.getcwd()
    os.chdir(tmp)
    track_rt.EPOCH[0] = datetime.datetime.now(datetime.timezone.utc) - datetime.timedelta(seconds=1)
    track_rt.TRUTH.clear()
    started, mods, out, saver = {}, [], [], prog.uid("trk")
    rng = random.Random(sc["sseed"])

    def load(p):
        name = "vp_tracked" if sc["same"] else prog.uid("vptr")
        path = os.path.join(tmp, name + ".py")
        with open(path, "w") as f:
            f.write(source(sc, p))
        sys.modules.pop(name, None)
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        mods.append(name)
        return mod

    class Begin(lbase.BasePreGraphExecute):
        def pre_graph_execute(self, *, run_id, inputs, **kw):
            started.setdefault((inputs or {}).get("xid"), []).append(run_id)

    class ABegin(lbase.BasePreGraphExecuteAsync):
        async def pre_graph_execute(self, *, run_id, inputs, **kw):
            started.setdefault((inputs or {}).get("xid"), []).append(run_id)

    def builder(mod, ads):
        b = driver.Builder().with_modules(mod)
        if sc["kind"] == "par":
            b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
                executors.MultiThreadingExecutor(max_tasks=sc["threads"]) if sc["threads"] else executors.SynchronousLocalTaskExecutor())
            return b.with_adapters(*ads).build()
        return b.with_adapters(Result(), *ads, Breaker()).build()

    # a run can fail although no node did
    breaking = dict(at="")

    class Breaker(lifecycle.NodeExecutionHook):
        def run_before_node_execution(self, **kw):
            pass

        def run_after_node_execution(self, *, node_name, **kw):
            if breaking["at"] == "hook" and node_name != "root":
                raise RuntimeError("broken hook")

    class Result(base.DictResult):
        def build_result(self, **outputs):
            if breaking["at"] == "result":
                raise RuntimeError("broken builder")
            return base.DictResult.build_result(**outputs)

    def attempt(dr, x, tracked, xid):
        ins = {} if x["bad"] else {"xid": xid}
        if x["bad"]:
            ins = {"xid": xid, "nothing": 1}
        final = list(x["final"]) + (["no_such"] if x["bad"] else [])
        breaking["at"] = x["brk"]
        try:
            if x["how"] == "mat":
                kw = getattr(to, saver)(id=x["mid"], dependencies=[x["final"][0]])
                m, r = dr.materialize(kw, additional_vars=final, inputs=ins)
                r = dict(r, **{"save:" + k: v for k, v in m.items()})
            else:
                r = dr.execute(final, inputs=ins)
            return True, {k: show(v) for k, v in r.items()}
        except Exception as ex:
            return False, {"error": type(ex).__name__}

    def names(dr, x):
        return sorted({v.name for v in dr.list_available_variables()} | ({x["mid"]} if x["how"] == "mat" else set()))

    def exec_event(xid, x, nm, code, ok, res, ok0, res0):
        return dict(xid=xid, ev="exec", names=nm, final=list(x["final"]) + (["no_such"] if x["bad"] else []) + ([x["mid"]] if x["how"] == "mat" else []),
                    codes=[hashlib.md5(code.encode()).hexdigest()], ok=ok, changed=(ok, res) != (ok0, res0))
    try:
        registry.register_adapter(io_rt.adapter(dict(cls="S", types=["Any"], fields=[], req=[], optv={}), saver, True))
        if sc["kind"] == "async":
            asyncio.run(amain(sc, sp, url, load, ABegin, exec_event, out))
        else:
            tr = adapters.HamiltonTracker(project_id=1, username="u", dag_name="d", api_key="k", hamilton_api_url=url, hamilton_ui_url=url, verify=False)
            tr.client.flush_interval, tr.client.max_batch_size = .05, sc["batch"]
            tr.special_parallel_sample_strategy = sc["strat"]
            order = [tr, Begin(), track_rt.witness()]
            rng.shuffle(order)
            drs, bare, xid = {}, {}, 0
            for x in sc["execs"]:
                p = x["p"]
                if p not in drs or x["fresh"]:
                    if sc["same"]:  # the file is edited: what was built from it before is not used again
                        drs, bare = {}, {}
                    mod = load(p)
                    drs[p], bare[p] = builder(mod, order), builder(mod, [])
                dr, n = drs[p], 2 if x["twin"] else 1
                got = {}

                def one(j):
                    got[j] = attempt(dr, x, True, j)
                ths = [threading.Thread(target=one, args=(xid + j,)) for j in range(n)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
                ok0, res0 = attempt(bare[p], x, False, -1)
                for j in range(n):
                    out.append(exec_event(xid + j, x, names(dr, x), source(sc, p), *got[xid + j], ok0, res0))
                xid += n
                if x["gc"]:
                    gc.collect()
            t0 = time.time()
            while time.time() - t0 < 2 and any(t["open"] for ts in list(track_rt.TRUTH.values()) for t in list(ts)):
                time.sleep(.01)
            tr.stop()
        return [record(sp, e, started, sc["strat"]) for e in out]
    finally:
        os.chdir(old)
        for n in mods:
            sys.modules.pop(n, None)
        registry.SAVER_REGISTRY.pop(saver, None)
        shutil.rmtree(tmp, ignore_errors=True)


async def amain(sc, sp, url, load, ABegin, exec_event, out):
    from hamilton import async_driver, base
    from hamilton_sdk import adapters
    tr = adapters.AsyncHamiltonTracker(project_id=1, username="u", dag_name="d", api_key="k", hamilton_api_url=url, hamilton_ui_url=url, verify=False)
    tr.client.flush_interval, tr.client.max_batch_size = .05, sc["batch"]
    await tr.ainit()
    drs, bare = {}, {}

    async def attempt(dr, x, xid):
        try:
            r = await dr.execute(list(x["final"]) + (["no_such"] if x["bad"] else []), inputs={"xid": xid})
            return True, {k: show(v) for k, v in r.items()}
        except Exception as ex:
            return False, {"error": type(ex).__name__}
    for xid, x in enumerate(sc["execs"]):
        p = x["p"]
        if x["bad"]:
            continue
        if p not in drs or x["fresh"]:
            if sc["same"]:
                drs, bare = {}, {}
            mod = load(p)
            drs[p] = await async_driver.Builder().with_modules(mod).with_adapters(tr, ABegin(), track_rt.awitness(), base.DictResult()).build()
            bare[p] = await async_driver.Builder().with_modules(mod).with_adapters(base.DictResult()).build()
        ok, res = await attempt(drs[p], x, xid)
        ok0, res0 = await attempt(bare[p], x, -1)
        out.append(exec_event(xid, x, sorted(v.name for v in drs[p].list_available_variables()), source(sc, p), ok, res, ok0, res0))
    # the async client has no stop(): wait until nothing has come for several intervals
    t0, n0 = time.time(), -1
    while time.time() - t0 < 6:
        await asyncio.sleep(.3)
        if sp.bulk == n0:
            break
        n0 = sp.bulk
    for t in asyncio.all_tasks() - {asyncio.current_task()}:
        t.cancel()


def when(s):
    if not s:
        return -1
    t = datetime.datetime.fromisoformat(s)
    if t.tzinfo is None:
        t = t.replace(tzinfo=datetime.timezone.utc)
    return int((t - track_rt.EPOCH[0]) / datetime.timedelta(microseconds=1))


def record(sp, e, started, strat):
    xid = e.pop("xid")
    runs = [(i, r) for i, r in sorted(sp.runs.items()) if (r["body"]["inputs"] or {}).get("xid") == xid]
    rid = (started.get(xid) or [None])[0]
    e.update(began=rid is not None, runs=len(runs), tmplnodes=[], tmplcodes=[], outputs=[], ends=[], tasks=[],
             strat=dict(kind="none" if strat is None else "mod" if isinstance(strat, int) else "share", k=int(strat or 0)),
             truth=[dict(t, block=block(t["task"])) for t in track_rt.TRUTH.get(rid, [])])
    if runs:
        i, r = runs[0]
        t = sp.templates[r["tmpl"]]
        e.update(tmplnodes=sorted(n["name"] for n in t["nodes"]), tmplcodes=[hashlib.md5(f["contents"].encode()).hexdigest() for f in t["code_log"]["files"]],
                 outputs=r["body"]["outputs"], ends=r["ends"])
        tasks = {}
        for x in sp.log:
            if x["ev"] == "recv" and x["run"] == str(i) and x["ok"]:
                for u in x["body"]["task_updates"]:
                    tasks.setdefault(u["node_name"], dict(attrs=[])).update(u)
                for a in x["body"]["attributes"]:
                    tasks.setdefault(a["node_name"], dict(attrs=[]))["attrs"].append(f"{a['name']}/{a['attribute_role']}")
        e["tasks"] = [dict(name=n, tmpl=u.get("node_template_name", ""), status=u.get("status", ""), deps=u.get("realized_dependencies", []),
                           start=when(u.get("start_time")), end=when(u.get("end_time")), attrs=u["attrs"]) for n, u in sorted(tasks.items())]
    return e


def block(task):
    """index of the parallel block the task belongs to; -1: none"""
    ps = task.split(".")
    return int(ps[1]) if task.startswith("expand-") and "block" in task and len(ps) > 1 and ps[1].isdigit() else -1


def to_traces(scs, res):
    traces, metas = [], []
    for i, r in enumerate(res):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(ev=[dict(ev="hang", why=str(r)[:800])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, kind="run"))
    return traces, metas
