"""Generator and recorder for shipped adapters (Adapters.tla)."""
import logging
import random
import re
import threading

from vp import adp_rt, common, prog

CONSTS = ["None", "int:0", "bool:False", "float:0.0", "str:", "str:S", "int:1", "bool:True", "Sen:1", "Sen:2", "Sen2:1"]
SENTS = ["None", "None", "int:0", "str:", "str:S", "Sen:1", "Sen2:1", "obj", "bool:False", "int:1", "float:0.0"]


def decl(rng, n, pool, role="plain", item="", graceful=True):
    ps = list(dict.fromkeys(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3])))) if pool else []
    return dict(n=n, ps=ps, dflt={}, role=role, acc=graceful and rng.random() < .25, item=item, ret=rng.choice(CONSTS) if rng.random() < .22 else "", tag=rng.choice(["a", "b", ""]), lst=False)


def program(rng, par, graceful):
    ds, names, exts = [], [], ["x", "y"]
    nm = iter(rng.sample(["a", "b", "c_1", "load", "n", "total", "ab", "mean", "z", "raw", "e", "k2"], 12))
    q = []

    def plain():
        d = decl(rng, next(nm), names * 2 + exts, graceful=graceful)
        if rng.random() < .25:   # a parameter nobody provides
            k = f"opt{len(q)}"
            q.append(k)
            d["ps"].append(k)
            d["dflt"][k] = rng.choice(CONSTS)
        ds.append(d)
        names.append(d["n"])
    for _ in range(rng.choice([0, 1, 2, 3]) if par else rng.choice([2, 3, 4, 5])):
        plain()
    if par:
        it = "it"
        d = decl(rng, it, names + exts, "expand", graceful=graceful)
        d.update(ret="", lst=rng.random() < .3)
        ds.append(d)
        inner = []
        for j in range(rng.choice([1, 1, 2, 3])):
            d = decl(rng, f"in{j}", inner * 3 + names + exts, "inner", it, graceful=graceful)
            d["ps"] = [p for p in d["ps"] if p != it] + [it]
            ds.append(d)
            inner.append(d["n"])
        # (what is not collected is not computed)
        d = decl(rng, "col", names + exts, "collect", graceful=graceful)
        c = inner[-1]
        d["ps"] = [c] + [p for p in d["ps"] if p != c]
        ds.append(d)
        names.append("col")
        for _ in range(rng.choice([0, 1, 2])):
            plain()
    return ds, q


def scenario(seed, i, graceful):
    rng = common.rng_for(seed, "graceful" if graceful else "observed", i)
    par = rng.random() < .5
    ds, opts = program(rng, par, graceful)
    eng = rng.choice(["sync", "sync", "thread"]) if par else rng.choice(["mem", "mem", "mem", "sync"])
    errs = rng.choice([["E", "E1"], ["E", "E1", "E2", "ValueError"], ["E1"], ["E1", "E2"]])
    cfg = dict(mode="graceful" if graceful else "plain", sent=rng.choice(SENTS), catch=rng.choice(["E", "E", "E1", "E2", "Exception"]), all=rng.random() < .6, inj=rng.random() < .75,
               kw=rng.random() < .5)
    runs = []
    for _ in range(rng.choice([1, 2, 3])):
        v = lambda t: rng.choice(CONSTS) if rng.random() < .2 else t  # noqa
        items = [v(f"i{k}") for k in range(rng.choice([0, 1, 2, 3, 4]))] if par else []
        boom = {}
        pb = rng.choice([0, .1, .3]) if graceful else rng.choice([0, 0, .12])
        for d in ds:
            if d["role"] == "inner":
                for x in items + [cfg["sent"]]:
                    if rng.random() < pb * .7:
                        boom[d["n"] + "@" + x] = rng.choice(errs)
            elif d["role"] != "expand" and rng.random() < pb:
                boom[d["n"]] = rng.choice(errs)
        exp = next((d for d in ds if d["role"] == "expand"), None)
        experr = rng.choice(errs) if exp and rng.random() < (.25 if graceful else .08) else ""
        out = [d["n"] for d in ds if d["role"] not in ("expand", "inner")]
        final = sorted(set(rng.choice(out[-2:] if rng.random() < .6 else out) for _ in range(rng.choice([1, 1, 2]))))
        if not graceful and not par and rng.random() < .06:
            final = ["x"]
        runs.append(dict(ins={"x": v("in_x"), "y": v("in_y")}, ovr={n: v("ov_" + n) for n in out if n != "col" and rng.random() < .07}, final=final, boom=boom, items=items,
                         experr=experr, expat=(0 if exp["lst"] else rng.randint(0, len(items))) if experr else 0))
    obs = []
    if not graceful:
        for k in ("print", "print", "span", "alarm", "lineage", "bar", "slow"):
            if rng.random() < .45:
                f = rng.choice(["none", "none", "list", "fn", "tag"])
                nmz = [d["n"] for d in ds]
                obs.append(dict(kind=k, f=f, names=rng.sample(nmz, rng.randint(0, len(nmz))), tag=rng.choice(["a", "b"]), verb=rng.choice([1, 2])))
    return dict(decls=ds, cfg=cfg, eng=eng, runs=runs, obs=obs, par=par, share=rng.random() < .4, other=rng.random() < .3, sseed=rng.randrange(1 << 30))


def source(sc):
    s = ("from typing import Any\nfrom hamilton.htypes import Parallelizable, Collect\nfrom hamilton.function_modifiers import tag\n"
         "from hamilton.lifecycle.default import accept_error_sentinels\nfrom vp import adp_rt as _rt\n\n")
    for d in sc["decls"]:
        if d["acc"]:
            s += "@accept_error_sentinels\n"
        if d["tag"]:
            s += f"@tag(team={d['tag']!r})\n"
        ps = ", ".join(f"{p}: " + ("Collect[Any]" if d["role"] == "collect" and i == 0 else "Any") + (f" = _rt.val({d['dflt'][p]!r})" if p in d["dflt"] else "") for i, p in enumerate(d["ps"]))
        a = "[" + ", ".join(d["ps"]) + "]"
        s += f"def {d['n']}({ps}) -> " + ("Parallelizable[Any]" if d["role"] == "expand" else "Any") + ":\n"
        if d["role"] == "expand":
            s += f"    return _rt.items_list({d['n']!r}, {a})\n\n" if d["lst"] else f"    yield from _rt.items({d['n']!r}, {a})\n\n"
        else:
            s += f"    return _rt.go({d['n']!r}, {a}, {d['ret']!r}" + (f", _rt.show({d['item']})" if d["role"] == "inner" else "") + ")\n\n"
    return s


class Observer:
    """one observing adapter, and what it said about the present run"""

    def __init__(self, o, sc, k):
        self.o, self.k, self.kind = o, k, o["kind"]
        names = {d["n"] for d in sc["decls"]}
        if o["kind"] != "print" or o["f"] == "none":
            f, self.all, self.names = None, True, []
        elif o["f"] == "tag":
            f, self.all, self.names = (lambda n, t: t.get("team") == o["tag"]), False, [d["n"] for d in sc["decls"] if d["tag"] == o["tag"]]
        elif o["f"] == "fn":
            f, self.all, self.names = (lambda n, t: n in o["names"]), False, o["names"]
        else:
            f, self.all, self.names = list(o["names"]), False, o["names"]
        self.program = names
        if self.kind == "print":
            from hamilton.lifecycle import PrintLn
            self.ad = PrintLn(verbosity=o["verb"], print_fn=lambda m: adp_rt.note("msg", k, m), node_filter=f)
        elif self.kind == "span":
            from opentelemetry.sdk.trace import TracerProvider
            from opentelemetry.sdk.trace.export import SimpleSpanProcessor
            from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
            from hamilton.plugins.h_opentelemetry import OpenTelemetryTracer
            self.exp = InMemorySpanExporter()
            p = TracerProvider()
            p.add_span_processor(SimpleSpanProcessor(self.exp))
            self.ad = OpenTelemetryTracer(tracer=p.get_tracer("t"))
        elif self.kind == "alarm":
            from hamilton.plugins.h_slack import SlackNotifier
            self.ad = SlackNotifier(api_key="k", channel="c")

            class C:
                def chat_postMessage(s, channel, text, **kw):
                    adp_rt.note("alarm", k, text)
            self.ad.slack_client = C()
        elif self.kind == "lineage":
            from hamilton.plugins.h_openlineage import OpenLineageAdapter

            class C:
                def emit(s, ev):
                    adp_rt.note("emit", k, str(ev.eventType.value))
            self.ad = OpenLineageAdapter(C(), "ns", "job")
        elif self.kind == "bar":
            import io
            from hamilton.plugins.h_tqdm import ProgressBar
            self.ad = ProgressBar(desc="d", file=io.StringIO())
        else:
            from hamilton.lifecycle import SlowDownYouMoveTooFast
            self.ad = SlowDownYouMoveTooFast(0, 0)

    def forget(self):
        if self.kind == "span":
            self.exp.clear()

    def report(self, log, threads):
        """what was said, in the terms of the specification; None: nothing is claimed"""
        w = dict(kind=self.kind, all=self.all, names=list(self.names), beg=[], fin=[], ends=[], graphs=[], nested=True)
        if self.kind == "print":
            open_, called = {}, {}
            for th, what, name, text in log:
                if what == "call" and (self.all or name in self.names):
                    if open_.get(th) != name:
                        w["nested"] = False
                if what != "msg" or name != self.k:
                    continue
                m = re.match(r"Executing node: (?:.*:)?(\w+)\.", text)
                if m:
                    w["beg"].append(m.group(1))
                    open_[th] = m.group(1)
                    continue
                m = re.match(r"(?s)Finished debugging node: (?:.*?:)?(\w+) in .*?Status: (\w+)", text)
                if m:
                    w["fin"].append(m.group(1) + " " + m.group(2))
                    w["ends"].append(m.group(1))
                    if open_.pop(th, None) != m.group(1):
                        w["nested"] = False
                else:
                    w["fin"].append("? " + text[:80])
                    w["ends"].append("?")
        elif self.kind == "span":
            sp = self.exp.get_finished_spans()
            by = {s.context.span_id: s for s in sp}
            roots = [s for s in sp if s.attributes and "final_vars" in s.attributes]
            w["graphs"] = [s.status.status_code.name for s in roots]
            for s in sp:
                if s.attributes and "node_version" in s.attributes:
                    w["fin"].append(s.name + " " + {"OK": "Success", "ERROR": "Failure"}.get(s.status.status_code.name, "?"))
                    if not threads:  # every node's span lies within the run's
                        p = s
                        while p is not None and p not in roots:
                            p = by.get(p.parent.span_id) if p.parent else None
                        if p is None or not (p.start_time <= s.start_time <= s.end_time <= p.end_time):
                            w["nested"] = False
            self.exp.clear()
        elif self.kind == "alarm":
            for _, what, name, text in log:
                if what == "alarm" and name == self.k:
                    w["fin"] += [n for n in self.program if f"`{n}`" in text.split("\n")[0]] or ["?"]
        elif self.kind == "lineage":
            w["fin"] = [text for _, what, name, text in log if what == "emit" and name == self.k]
        else:
            return None
        return w


FOREIGN = """
from typing import Any
from vp import adp_rt as _rt
def other(x: Any) -> Any:
    return x
"""


def foreign(sc, ads):
    """another dataflow, some names in common, run with the same adapters; whatever becomes of it, it must not matter to the one judged"""
    from hamilton import base, driver
    ns = [d["n"] for d in sc["decls"] if d["role"] in ("plain", "inner")][:3]
    err = {"Exception": "E"}.get(sc["cfg"]["catch"], sc["cfg"]["catch"])
    mod = prog.make_module(prog.uid("vpfo"), FOREIGN + "".join(f"def {n}(other: Any) -> Any:\n    " + (f"raise _rt.{err}()" if i else "return 7") + "\n" for i, n in enumerate(ns)))
    try:
        driver.Builder().with_modules(mod).with_adapters(base.DictResult(), *ads).build().execute(ns, inputs={"x": 5})
    except Exception:
        pass
    finally:
        prog.drop_module(mod)


def execute(sc):
    logging.disable(logging.CRITICAL)
    from hamilton import base, driver
    from hamilton.execution import executors
    from hamilton.lifecycle import GracefulErrorAdapter
    cfg = sc["cfg"]
    mod = prog.make_module(prog.uid("vpad"), source(sc))
    out = []
    try:
        obs = [Observer(o, sc, k) for k, o in enumerate(sc["obs"])]
        ads = [o.ad for o in obs]
        if cfg["mode"] == "graceful":
            kw = dict(try_all_parallel=cfg["all"], allow_injection=cfg["inj"])
            if cfg["kw"]:
                kw = {k: v for k, v in kw.items() if not v}
            if not (cfg["sent"] == "None" and cfg["kw"]):
                kw["sentinel_value"] = adp_rt.val(cfg["sent"])
            ads = [GracefulErrorAdapter(error_to_catch=adp_rt.ERR[cfg["catch"]], **kw)]

        def build():
            b = driver.Builder().with_modules(mod)
            if sc["eng"] == "mem":
                return b.with_adapters(base.DictResult(), *ads).build()
            b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
                executors.MultiThreadingExecutor(max_tasks=3) if sc["eng"] == "thread" else executors.SynchronousLocalTaskExecutor())
            return b.with_adapters(base.DictResult(), *ads).build()
        dr = build()
        for r in sc["runs"]:
            if sc["other"]:
                foreign(sc, ads)
                for o in obs:
                    o.forget()
            adp_rt.LOG.clear()
            adp_rt.RUN.clear()
            adp_rt.RUN.update(boom=r["boom"], items=r["items"], experr=r["experr"], expat=r["expat"])
            e = dict(r, ev="run", ok=True, res={}, err="")
            try:
                res = dr.execute(list(r["final"]), inputs={k: adp_rt.val(v) for k, v in r["ins"].items()}, overrides={k: adp_rt.val(v) for k, v in r["ovr"].items()})
                e["res"] = {k: adp_rt.show(v) for k, v in res.items()}
            except Exception as ex:
                e.update(ok=False, err=type(ex).__name__, msg=str(ex)[:200])
            with adp_rt.LOCK:
                log = list(adp_rt.LOG)
            e["calls"] = [t for _, what, _, t in log if what == "call"]
            late = sc["eng"] == "thread" and not e["ok"]   # others may still be running
            e["seen"] = [w for w in (o.report(log, sc["eng"] == "thread") for o in obs) if w is not None] if not late else []
            out.append(e)
            if late:
                break
            if sc["share"]:
                dr = build()
        return out
    finally:
        prog.drop_module(mod)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(decls=sc["decls"], cfg=sc["cfg"], ev=[dict(ev="hang", why=str(r)[:300])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, eng=sc["eng"]))
    return traces, metas
