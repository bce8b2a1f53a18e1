"""A stand-in for a cluster (what ray and a dask client offer the plugins): work is shipped by value, futures among the top-level
arguments are awaited, ready work runs in any order, progress happens when somebody looks."""
import concurrent.futures
import inspect
import json
import random
import sys
import types
import weakref

import cloudpickle

from vp import common, engines, pargen, prog, vp_rt

CURRENT = [None]        # options of the work running


def ship(x):
    return cloudpickle.loads(cloudpickle.dumps(x))


class Cluster:
    def __init__(self, rng, eager):
        self.rng, self.eager, self.pend, self.log = rng, eager, [], []

    def put(self, fn, args, kw, opts=None):
        w = Work(self, fn, args, kw, opts or {})
        self.pend.append(w)
        if self.eager:
            w.wait()
        return w

    def step(self):
        ready = [w for w in self.pend if w.ready()]
        if ready:
            self.rng.choice(ready).run()
        return bool(ready)


class Work(concurrent.futures.Future):
    """is future and object reference in one"""

    def __init__(self, cl, fn, args, kw, opts):
        super().__init__()
        self.cl, self.opts = cl, opts
        self.refs = [a for a in list(args) + list(kw.values()) if isinstance(a, Work)]
        self.code = cloudpickle.dumps((fn, [None if isinstance(a, Work) else a for a in args], {k: None if isinstance(a, Work) else a for k, a in kw.items()}))
        self.hole = ({i: a for i, a in enumerate(args) if isinstance(a, Work)}, {k: a for k, a in kw.items() if isinstance(a, Work)})

    def isdone(self):
        return super().done()

    def ready(self):
        return all(r.isdone() for r in self.refs)

    def run(self):
        self.cl.pend.remove(self)
        try:
            for r in self.refs:
                if super(Work, r).exception() is not None:
                    raise super(Work, r).exception()
            fn, args, kw = cloudpickle.loads(self.code)
            for i, r in self.hole[0].items():
                args[i] = ship(super(Work, r).result())
            for k, r in self.hole[1].items():
                kw[k] = ship(super(Work, r).result())
            old, CURRENT[0] = CURRENT[0], self.opts
            try:
                v = ship(fn(*args, **kw))
            finally:
                CURRENT[0] = old
            self.set_result(v)
        except Exception as ex:
            self.set_exception(ex)

    def wait(self):
        while not self.isdone():
            if not self.cl.step():
                raise RuntimeError("stuck")

    def done(self):
        if not self.isdone() and self.cl.rng.random() < .7:
            self.cl.step()
        return self.isdone()

    def result(self, timeout=None):
        self.wait()
        return super().result()

    def exception(self, timeout=None):
        self.wait()
        return super().exception()

    def future(self):
        return self

    def __reduce__(self):
        raise TypeError("a reference inside an argument is not awaited")


class Client:
    def __init__(self, cl):
        self.cl = cl
        self.keys = weakref.WeakValueDictionary()

    def submit(self, fn, *args, key=None, workers=None, resources=None, retries=None, priority=0, fifo_timeout="100 ms", allow_other_workers=False, actor=False, actors=False, pure=True, **kw):
        if key is None:
            return self.cl.put(fn, args, kw)
        w = self.keys.get(key)      # work is known by its key as long as somebody holds on to it
        if w is None:
            w = self.keys[key] = self.cl.put(fn, args, kw)
        return w


CL = [None]


class Remote:
    def __init__(self, fn, opts):
        self.fn, self.opts = fn, opts

    def options(self, **o):
        return Remote(self.fn, {**self.opts, **o})

    def remote(self, *a, **k):
        return CL[0].put(self.fn, a, k, self.opts)

    def bind(self, *a, **k):
        return Bound(self, a, k)


class Bound:
    def __init__(self, r, a, k):
        self.r, self.a, self.k = r, a, k

    def go(self, seen):
        if id(self) not in seen:
            g = lambda x: x.go(seen) if isinstance(x, Bound) else x
            seen[id(self)] = CL[0].put(self.r.fn, [g(x) for x in self.a], {k: g(x) for k, x in self.k.items()}, self.r.opts)
        return seen[id(self)]


def ray_remote(*a, **o):
    if a and not (inspect.isfunction(a[0]) or inspect.isclass(a[0])):
        raise TypeError("The @ray.remote decorator must be applied to either a function or a class.")
    if len(a) == 1 and not o:
        return Remote(a[0], {})
    return lambda f: Remote(f, o)


def ray_get(x, timeout=None):
    return [ray_get(y) for y in x] if isinstance(x, list) else x.result()


NET = []        # init and shutdown, in order


def fake_ray():
    """replaces the ray package before the plugin is imported"""
    if "ray" in sys.modules and getattr(sys.modules["ray"], "_vp", False):
        return
    ray, wf, rl = types.ModuleType("ray"), types.ModuleType("ray.workflow"), types.ModuleType("ray._raylet")
    ray._vp = True
    ray.remote, ray.get, ray.put = ray_remote, ray_get, lambda v: CL[0].put(lambda: v, (), {})
    ray.init = lambda *a, **k: NET.append("init")
    ray.shutdown = lambda *a, **k: NET.append("shutdown")
    ray.is_initialized = lambda: NET.count("init") > NET.count("shutdown")
    ray.ObjectRef = rl.ObjectRef = Work
    ray._raylet, ray.workflow = rl, wf
    wf.run = lambda dag, *a, workflow_id=None, **k: dag.go({}).result()
    sys.modules.update({"ray": ray, "ray.workflow": wf, "ray._raylet": rl})


def hook():
    from hamilton import lifecycle

    class H(lifecycle.NodeExecutionHook):
        def run_before_node_execution(self, *, node_name, node_kwargs, **k):
            vp_rt.emit(ev="hook", k="pre", n=node_name, args={p: vp_rt.enc(v) for p, v in node_kwargs.items()}, ok=True, out=0)

        def run_after_node_execution(self, *, node_name, node_kwargs, result, error, success, **k):
            vp_rt.emit(ev="hook", k="post", n=node_name, args={p: vp_rt.enc(v) for p, v in node_kwargs.items()}, ok=bool(success) and error is None, out=vp_rt.enc(result) if success else -2)
    return H()


OPTS = [dict(num_cpus=2), dict(num_cpus=0.5, max_retries=0), dict(resources={"x": 1}), dict(runtime_env={}), dict(name="w", num_gpus=0)]


def scenario(seed, i):
    from vp.checks import c02, c04
    rng = common.rng_for(seed, "clu", i)
    if rng.random() < .25:
        sc = c04.scenario(seed * 7 + 1, i)
        sc.update(par=True, engine="task:" + rng.choice(["blocks", "default"]) + ":" + rng.choice(["dask", "ray"]), eager=rng.random() < .3, own=rng.random() < .5, hook=False, opts={})
        return sc
    P = prog.rand_program(rng, nmin=2, nmax=rng.choice([3, 5, 8]), p_opt=rng.choice([0, .25, .5]))
    if rng.random() < .4:
        twin(rng, P)
    eng = rng.choice(["dask", "dask", "dask-direct", "ray", "ray", "ray", "ray-flow", "task:dask", "task:ray"])
    if eng.startswith("task"):
        eng = "task:" + rng.choice(["blocks", "each", "one", "level", "default"]) + eng[4:]
    reqs = [c02.clean(c02.rand_request(rng, P, allow_fail=rng.random() < .5)) for _ in range(rng.choice([1, 2]))]
    opts = {n: rng.choice(OPTS) for n in P["nodes"] if rng.random() < .3 and n not in P.get("twins", [])} if eng.startswith("ray") else {}
    return dict(par=False, P=P, engine=eng, sseed=rng.randrange(1 << 30), reqs=reqs, eager=rng.random() < .3, own=rng.random() < .5, hook=eng == "ray" and rng.random() < .5, opts=opts)


def twin(rng, P):
    """a second node of the same function"""
    a, b = rng.choice(list(P["nodes"])), "tw"
    nd = dict(prog.rand_node(rng, P["nodes"][a]["params"], P["nodes"][a]["opt"]))
    order = P["order"]
    i = order.index(a) + 1
    later = order[i:]
    P["order"] = order[:i] + [b] + later
    P["nodes"] = {n: nd if n == b else P["nodes"][n] for n in P["order"]}
    P["mod"][b] = P["mod"][a]
    P["twins"] = [a, b]
    if later and rng.random() < .7:
        x = P["nodes"][rng.choice(later)]
        x["params"].append(b)
        x["k"][b] = rng.randrange(1, 900)


def render(P, par, opts):
    if par:
        return pargen.render(P)
    srcs = plain(P, opts)
    if P.get("twins"):
        a, b = P["twins"]
        nd = P["nodes"][a]
        ps = [f"{p}: Any" for p in nd["params"] if p not in nd["opt"]] + ["zz: Any"] + [f"{p}: Any = _rt.dec({nd['opt'][p]})" for p in nd["params"] if p in nd["opt"]]
        lit = ", ".join(f"{n}=dict(zz=value({(n, P['nodes'][n]['c'], P['nodes'][n]['k'], P['nodes'][n]['m'])!r}))" for n in (a, b))
        srcs[P["mod"][a]] += (f"from hamilton.function_modifiers import parameterize, value\n\n\n@parameterize({lit})\ndef both({', '.join(ps)}) -> Any:\n"
                              f"    return _rt.fn(zz[0], {{{', '.join(f'{p!r}: {p}' for p in nd['params'])}}}, c=zz[1], k=zz[2], m=zz[3])\n")
    return srcs


def plain(P, opts):
    return prog.render(dict(P, nodes={n: d for n, d in P["nodes"].items() if n not in P.get("twins", [])}, deco={n: f"@__import__('hamilton.function_modifiers.metadata', fromlist=['x']).ray_remote_options(**{o!r})\n" for n, o in opts.items()}))


def execute(sc):
    fake_ray()
    import dask
    from hamilton import base, driver
    from hamilton.plugins import h_dask, h_ray
    P = sc["P"]
    rng = random.Random(sc["sseed"])
    cl = CL[0] = Cluster(rng, sc["eager"])
    del NET[:]
    mods = prog.build_modules(render(P, sc["par"], sc["opts"]))
    out = []
    try:
        eng = sc["engine"]
        cfg = prog.dec_map(P["config"])
        if eng.startswith("task"):
            mk = lambda: h_dask.DaskExecutor(client=Client(cl)) if eng.endswith("dask") else h_ray.RayTaskExecutor(num_cpus=1, skip_init=not sc["own"])
            dr = engines.builder_for(P, mods, eng, extra=dict(local=mk() if rng.random() < .3 else __import__("hamilton.execution.executors", fromlist=["x"]).SynchronousLocalTaskExecutor(), remote=mk())).build()
        elif eng.startswith("dask"):
            a = h_dask.DaskGraphAdapter(None, base.DictResult(), use_delayed=eng == "dask", compute_at_end=eng == "dask")
            dr = driver.Builder().with_modules(*mods).with_config(cfg).with_adapters(a).build() if sc["own"] else driver.Driver(cfg, *mods, adapter=a)
        elif eng == "ray":
            a = h_ray.RayGraphAdapter(result_builder=base.DictResult(), ray_init_config={} if sc["own"] else None)
            dr = driver.Builder().with_modules(*mods).with_config(cfg).with_adapters(a, *([hook()] if sc["hook"] else [])).build()
        else:
            dr = driver.Driver(cfg, *mods, adapter=h_ray.RayWorkflowGraphAdapter(base.DictResult(), "w"))
        for Q in sc["reqs"]:
            n0 = len(NET)
            seen = []

            def see(name):
                seen.append(dict(n=name, o=json.dumps(CURRENT[0] or {}, sort_keys=True)))
            with dask.config.set(scheduler="synchronous" if sc["eager"] else "threads", num_workers=3):
                if sc["par"]:
                    vp_rt.reset(Q["fail"])
                    ovs = prog.dec_map(Q["overrides"])
                    ovs.update({x: [vp_rt.dec(c) for c in v] for x, v in Q["ovseq"].items()})
                    try:
                        res = dr.execute(list(Q["final"]), inputs=prog.dec_map(Q["inputs"]), overrides=ovs)
                        ev = list(vp_rt.LOG) + [dict(ev="return", res=pargen.enc_result(Q, res))]
                    except Exception as ex:
                        ev = list(vp_rt.LOG) + [dict(ev="raise", cls=type(ex).__name__, msg=str(ex)[:300], who=ex.name if isinstance(ex, vp_rt.Boom) else "")]
                else:
                    ev = engines.run_request(dr, Q, see if sc["opts"] else None)
            out.append(dict(ev=ev, opts=seen, net=NET[n0:]))
    finally:
        del cl.pend[:]
        for m in mods:
            prog.drop_module(m)
    return out


def to_traces(scs, res, par):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if sc["par"] != par or (isinstance(r, dict) and "lost" in r):
            continue
        view = pargen.spec_view if par else engines.spec_view
        want = {n: json.dumps(o, sort_keys=True) for n, o in sc["opts"].items()}
        if isinstance(r, dict):
            r = [dict(ev=[dict(ev="hang" if "hang" in r else "crash", why=str(r)[-300:])], opts=[], net=[])]
        for j, x in enumerate(r):
            t = dict(p=view(sc["reqs"][j]), ev=x["ev"])
            if not par:
                t.update(opts=x["opts"], want=want or {"": ""}, net=x["net"], own=bool(sc["own"]), hook=bool(sc["hook"]))
            traces.append(t)
            metas.append(dict(i=i, req=j, engine=sc["engine"]))
    return traces, metas
