"""Sessions with builders and drivers: generation, execution against the real system, recording for SessTrace.tla."""
import importlib.machinery
import json
import logging
import pickle
import random
import re
import sys

from vp import common, prog, sess_rt

sys.modules.setdefault("vp_sess_rt", sess_rt)

NAMES = ["a", "b", "ab", "a_b", "x", "x_1", "x1", "total", "total_a", "raw", "out", "mean", "spend", "k", "foo", "foo_bar",
         "config_", "inputs_", "module", "node_"]
TYPES = {"int": "int", "bool": "bool", "str": "str", "float": "float", "list": "list", "dict": "dict", "Any": "Any",
         "L_int": "List[int]", "L_str": "List[str]", "D_si": "Dict[str, int]", "U_is": "Union[int, str]",
         "U_isf": "Union[int, str, float]", "U_if": "Union[int, float]", "O_int": "Optional[int]", "sublist": "_rt.SubList"}
# parameter types that certainly accept a producer of the key
OVER = {"int": ["U_is", "U_isf", "U_if", "O_int", "Any"], "bool": ["int", "U_is", "Any"], "str": ["U_is", "U_isf", "Any"],
        "float": ["U_isf", "U_if", "Any"], "list": ["Any"], "dict": ["Any"], "L_int": ["list", "Any"], "L_str": ["list", "Any"],
        "D_si": ["dict", "Any"], "U_is": ["Any"], "O_int": ["Any"], "Any": ["Any"], "sublist": ["list", "Any"]}
VALS = {"int": [0, 1, 7], "bool": [True, False], "str": ["", "s", "t1"], "float": [0.0, 1.5], "list": [[], [1], ["q"]],
        "dict": [{}, {"k": 1}], "L_int": [[1], [1, 2]], "L_str": [["a"]], "D_si": [{"k": 1}], "U_is": [3, "u"],
        "O_int": [None, 4], "Any": [5, "any", None, []], "sublist": [sess_rt.SubList([1])]}
TAGV = ["p", "q", "r", "prod", "pro", ""]


def rand_tags(rng):
    t = {}
    for k in ("k1", "k2", "owner", "k"):
        if rng.random() < .3:
            vs = rng.sample(TAGV, rng.choice([1, 1, 2, 3]))
            t[k] = vs if (len(vs) > 1 or rng.random() < .4) else vs[0]
    return t


def program(rng, illtyped, cyclic, big):
    n = rng.randint(3, 10 if big else 6)
    names = rng.sample(NAMES, n + 3)
    base = {x: rng.choice(list(VALS)) for x in names}
    if rng.random() < .3:
        base = {x: "Any" for x in names}
    fns, exts = names[:n], names[n:]
    rng.shuffle(fns)
    nm = rng.choice([1, 2, 2, 3])
    mods = {m: [] for m in ["m", "m_two", "xm"][:nm]}
    modn = list(mods)

    def fn(m, x, i):
        pool = (fns if cyclic and rng.random() < .4 else fns[:i]) * 2 + exts + ([x] if cyclic and x in base and rng.random() < .1 else [])
        ps = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            p = rng.choice(pool)
            if p not in ps:
                ps.append(p)
        pty = {p: base[p] if rng.random() < .6 else rng.choice(OVER[base[p]]) for p in ps}
        # a parameter of one function asked under type Any while its producer is anything is fine
        dflt = {p: rng.choice(VALS[base[p]]) for p in ps if rng.random() < .3}
        ps = [p for p in ps if p not in dflt] + [p for p in ps if p in dflt]
        # (tags go to nodes nothing of the same function depends on, so a function naming itself gets none)
        tags = {} if x in ps else rand_tags(rng)
        return dict(n=x, ps=ps, ty=base.get(x, "Any"), pty=pty, dflt=dflt, tags=tags, doc=rng.choice(["", "", "Doc of " + x]),
                    own=True, mod=m, kind="own")

    for i, x in enumerate(fns):
        ms = [rng.choice(modn)]
        if rng.random() < .25:
            ms = rng.sample(modn, min(2, len(modn)))
        for m in ms:
            mods[m].append(fn(m, x, i))
    def bad():
        for _ in range(rng.choice([1, 1, 2])):
            m = rng.choice(modn)
            if mods[m]:
                f = rng.choice(mods[m])
                if f["ps"] and rng.random() < .75:
                    f["pty"][rng.choice(f["ps"])] = rng.choice(list(TYPES))
                else:
                    f["ty"] = rng.choice(list(TYPES))
    if rng.random() < .3 and exts:
        # one outside value asked for under types of different width, in whatever order the functions come
        x = exts[0]
        chain = rng.choice([["Any", "list", "L_int"], ["U_is", "int", "bool"], ["U_isf", "int", "bool"], ["U_is", "str", "Any"], ["O_int", "int", "bool"],
                            ["dict", "D_si", "Any"], ["list", "sublist", "Any"], ["U_if", "float", "Any"]])
        base[x] = chain[2] if chain[2] != "Any" else chain[1]
        for m in modn:
            for f in mods[m]:
                if x not in f["ps"] and rng.random() < .5 and x != f["n"]:
                    f["ps"].insert(0, x)
                if x in f["ps"]:
                    f["pty"][x] = rng.choice(chain)
                    if x in f["dflt"]:
                        f["dflt"][x] = rng.choice(VALS[base[x]])
    if illtyped:
        bad()
    # private helpers, functions imported from elsewhere, functions re-exported from a submodule
    libs = {}
    for m in modn:
        if rng.random() < .3:
            f = fn(m, "_" + rng.choice(names), n)
            f.update(own=False, kind="priv")
            mods[m].append(f)
        if rng.random() < .4:
            lib = rng.choice([m + "_lib", "lib_" + m, "lib", m + "lib"])
            x = rng.choice(names)
            if x not in [f["n"] for f in mods[m]] and lib not in libs:
                f = fn(lib, x, n)
                f.update(own=False, kind="imp")
                libs[lib] = [dict(f, own=True, kind="own")]
                mods[m].append(f)
        if rng.random() < .15:
            x = rng.choice(names)
            lib = m + ".sub"
            if x not in [f["n"] for f in mods[m]]:
                f = fn(lib, x, fns.index(x) if x in fns else 0)
                f.update(kind="imp", tags=f["tags"])
                libs[lib] = [dict(f, kind="own")]
                mods[m].append(f)
    return dict(mods=mods, libs=libs, base=base, names=names, fns=fns, exts=exts)


HDR = ("import vp_sess_rt as _rt\nfrom typing import Any, Dict, List, Optional, Union\n"
       "from hamilton.function_modifiers import tag as _tag\n")


def render(m, fs, real):
    src = HDR
    for f in fs:
        if f["kind"] == "imp":
            src += f"from {real[f['mod']]} import {f['n']}\n"
    for f in fs:
        if f["kind"] == "imp":
            continue
        if f["tags"]:
            src += f"@_tag({', '.join(f'{k}={v!r}' for k, v in f['tags'].items())})\n"
        ps = []
        for p in f["ps"]:
            s = f"{p}: {TYPES[f['pty'][p]]}"
            if p in f["dflt"]:
                v = f["dflt"][p]
                s += f" = {'_rt.SubList([1])' if isinstance(v, sess_rt.SubList) else repr(v)}"
            ps.append(s)
        src += f"def {f['n']}({', '.join(ps)}) -> {TYPES[f['ty']]}:\n"
        if f["doc"]:
            src += f"    '''{f['doc']}'''\n"
        src += f"    return _rt.call({f['mod']!r}, {f['n']!r}, [{', '.join(f['ps'])}])\n\n"
    return src


def build(P):
    u = prog.uid("vps")
    real = {m: f"{u}_{m}" for m in list(P["mods"]) + list(P["libs"])}
    made = {}
    for m, fs in list(P["libs"].items()) + list(P["mods"].items()):
        md = prog.make_module(real[m], render(m, fs, real))
        md.__spec__ = importlib.machinery.ModuleSpec(real[m], None)
        made[m] = md
    return made, {v: k for k, v in real.items()}


def enc_mods(P):
    def ef(f):
        return dict(n=f["n"], ps=f["ps"], ty=f["ty"], pty=f["pty"], dflt={p: sess_rt.show(v) for p, v in f["dflt"].items()},
                    tags=dict({k: (v if isinstance(v, list) else [v]) for k, v in f["tags"].items()}, module=[f["mod"]]),
                    doc=f["doc"], own=f["own"], mod=f["mod"])
    return {m: [ef(f) for f in fs] for m, fs in P["mods"].items()}


class Hook:
    pass


def make_hook():
    from hamilton.lifecycle import api

    class Rec(api.GraphExecutionHook):
        def __init__(self, h):
            self.h = h

        def run_before_graph_execution(self, **kw):
            sess_rt.HOOKS.append(self.h)

        def run_after_graph_execution(self, **kw):
            pass

    Rec.__module__, Rec.__qualname__ = __name__, "Rec"
    globals()["Rec"] = Rec
    return Rec


TOK = None


def token(t):
    global TOK
    if TOK is None:
        from typing import Any, Dict, List, Optional, Union
        env = dict(Any=Any, Dict=Dict, List=List, Optional=Optional, Union=Union, _rt=sess_rt)
        TOK = [(k, eval(v, env)) for k, v in TYPES.items()]
    for k, v in TOK:
        if t is v or (type(t) is type(v) and t == v):
            return k
    return "?" + str(t)


def parse_dot(dot, cfg):
    nodes, edges, tables = [], [], {}
    unq = lambda s: s[1:-1] if s.startswith('"') else s
    for ln in dot.body:
        s = ln.strip()
        m = re.match(r'("[^"]*"|[\w.]+) -> ("[^"]*"|[\w.]+)', s)
        if m:
            edges.append((unq(m[1]), unq(m[2])))
            continue
        m = re.match(r'("[^"]*"|[\w.]+) \[label=<(.*)>', s)
        if m:
            x = unq(m[1])
            if "<table" in m[2]:
                tables[x] = re.findall(r"<tr><td>(.*?)</td>", m[2])
            elif "note" not in s:
                nodes.append(x)
    out = []
    for a, b in edges:
        out += [[t, b] for t in tables[a]] if a in tables else [[a, b]]
    return [n for n in nodes if not n.startswith("sv_")], [x for x in out if not x[1].startswith("sv_")]


ASKED = []


def validator(v, ban, need):
    """objects to the nodes in ban, and to graphs without the node need"""
    from hamilton import lifecycle

    def init(self, v, ban, need):
        self.v, self.ban, self.need = v, ban, need

    def node(self, *, node, **k):
        ASKED.append(dict(v=self.v, n=node.name))
        return (False, f"{self.v} does not like {node.name}") if node.name in self.ban else (True, None)

    def graph(self, graph, **k):
        ASKED.append(dict(v=self.v, n="*"))
        return (True, None) if self.need in {n.name for n in graph.nodes} else (False, f"{self.v} misses {self.need}")

    name = "Validator" + "N" * bool(ban) + "G" * bool(need)
    if name not in globals():  # importable, so that drivers with validators can be pickled
        ms = {**({"run_to_validate_node": node} if ban else {}), **({"run_to_validate_graph": graph} if need else {})}
        globals()[name] = type(name, (lifecycle.StaticValidator,), dict(ms, __init__=init, __module__=__name__, __qualname__=name))
    return globals()[name](v, ban, need)


class Sess:
    def __init__(self, P, rng, made, logical):
        from hamilton import base, driver
        self.P, self.rng, self.made, self.logical = P, rng, made, logical
        self.base, self.driver = base, driver
        self.bs, self.ds, self.cfgs, self.ev, self.dcfg, self.fields = {}, {}, {}, [], {}, {}
        self.dkind = {}
        self.nh = 0

    def new(self, kind="sync"):
        from hamilton import async_driver
        b = f"b{len(self.bs)}"
        self.bs[b] = (self.driver if kind == "sync" else async_driver).Builder()
        self.cfgs[b] = {}
        self.fields[b] = dict(kind=kind, dyn=False)
        self.ev.append(dict(ev="new", b=b))
        return b

    def copy(self, b):
        b2 = f"b{len(self.bs)}"
        self.bs[b2] = self.bs[b].copy()
        self.cfgs[b2] = dict(self.cfgs[b])
        self.fields[b2] = dict(self.fields[b])
        self.ev.append(dict(ev="copy", b=b, b2=b2))
        return b2

    def op(self, b, kind, **kw):
        B = self.bs[b]
        ev = dict(ev=kind, b=b, ok=True)
        try:
            if kind == "modules":
                ev["ms"] = kw["ms"]
                B.with_modules(*[self.made[m] for m in kw["ms"]])
            elif kind == "config":
                ev["kv"] = {k: sess_rt.show(v) for k, v in kw["kv"].items()}
                B.with_config(kw["kv"])
                self.cfgs[b].update(kw["kv"])
                if self.rng.random() < .3:
                    kw["kv"].clear()        # the caller's dictionary is the caller's
            elif kind == "allow":
                B.allow_module_overrides()
            elif kind == "lenient":
                from hamilton.lifecycle import default
                B.with_adapters(default.NoEdgeAndInputTypeChecking())
            elif kind == "saver":
                from hamilton.io.materialization import to
                self.nh += 1
                ev.update(id=f"sv_{self.nh}", n=kw["n"])
                B.with_materializers(to.memory(id=ev["id"], dependencies=[kw["n"]]))
            elif kind == "hook":
                self.nh += 1
                ev["h"] = f"h{self.nh}"
                B.with_adapters((globals().get("Rec") or make_hook())(ev["h"]))
            elif kind == "validator":
                self.nh += 1
                ev.update(v=f"v{self.nh}", ban=kw["ban"], need=kw["need"])
                B.with_adapters(validator(ev["v"], kw["ban"], kw["need"]))
            elif kind == "dynamic":
                B.enable_dynamic_execution(allow_experimental_mode=True)
                self.fields[b]["dyn"] = True
            elif kind == "field":
                from hamilton.execution import executors, grouping
                ev["f"] = kw["f"]
                if kw["f"] == "adapter":
                    B.with_adapter(self.base.DictResult())
                elif kw["f"] == "local":
                    B.with_local_executor(executors.SynchronousLocalTaskExecutor())
                elif kw["f"] == "remote":
                    B.with_remote_executor(executors.SynchronousLocalTaskExecutor())
                elif kw["f"] == "manager":
                    B.with_execution_manager(executors.DefaultExecutionManager(
                        local_executor=executors.SynchronousLocalTaskExecutor(),
                        remote_executor=executors.SynchronousLocalTaskExecutor()))
                else:
                    B.with_grouping_strategy(grouping.GroupByRepeatableBlocks())
        except ValueError as ex:
            ev.update(ok=False, msg=str(ex)[:120])
        self.ev.append(ev)

    def build(self, b):
        d = f"d{len(self.ds)}"
        ev = dict(ev="built", b=b, d=d, ok=True, asked=[])
        del ASKED[:]
        try:
            if self.fields[b]["kind"] == "async":
                import asyncio
                B = self.bs[b]
                self.ds[d] = asyncio.run(B.build()) if self.rng.random() < .5 else B.build_without_init()
            else:
                self.ds[d] = self.bs[b].build()
            self.dcfg[d] = dict(self.cfgs[b])
            self.dkind[d] = dict(self.fields[b])
        except Exception as ex:
            ev.update(ok=False, msg=f"{type(ex).__name__}: {ex}"[:200])
            d = None
        ev["asked"] = [a for a in ASKED if not a["n"].startswith("sv_")]
        self.ev.append(ev)
        return d

    def direct(self, ms, kv, allow):
        """the classic constructor; recorded as a builder used once"""
        b = f"b{len(self.bs)}"
        self.bs[b] = None
        d = f"d{len(self.ds)}"
        self.ev += [dict(ev="new", b=b), dict(ev="modules", b=b, ms=ms, ok=True),
                    dict(ev="config", b=b, kv={k: sess_rt.show(v) for k, v in kv.items()}, ok=True)]
        if allow:
            self.ev.append(dict(ev="allow", b=b, ok=True))
        ev = dict(ev="built", b=b, d=d, ok=True, asked=[])
        try:
            kw = dict(allow_module_overrides=True) if allow else {}
            cfg, r = dict(kv), self.rng.random()
            ad = self.base.DictResult() if r < .5 else [self.base.DictResult()] if r < .8 else []
            had = list(ad) if isinstance(ad, list) else None
            self.ds[d] = self.driver.Driver(cfg, *[self.made[m] for m in ms], adapter=ad, **kw)
            ev["same"] = cfg == kv and (had is None or ad == had)
            self.dcfg[d] = dict(kv)
            self.dkind[d] = dict(kind="frame" if ad == [] or (had == []) else "sync", dyn=False)
        except Exception as ex:
            ev.update(ok=False, msg=f"{type(ex).__name__}: {ex}"[:200])
            d = None
        self.ev.append(ev)
        return d

    def clone(self, d):
        d2 = f"d{len(self.ds)}"
        try:
            self.ds[d2] = pickle.loads(pickle.dumps(self.ds[d]))
            self.dcfg[d2] = dict(self.dcfg[d])
            self.dkind[d2] = dict(self.dkind[d])
            self.ev.append(dict(ev="clone", d=d, d2=d2, ok=True))
        except Exception as ex:
            self.ev.append(dict(ev="clone", d=d, d2=d2, ok=False, msg=f"{type(ex).__name__}: {ex}"[:200]))

    def vars(self, d):
        vs, savers = [], {}
        for v in self.ds[d].list_available_variables():
            if v.name.startswith("sv_"):
                g = self.hnode(d, v.name)
                savers[v.name] = g["req"] + g["opt"]
                continue
            tags = {k: (list(x) if isinstance(x, (list, tuple)) else [x]) for k, x in v.tags.items()}
            if "module" in tags:
                tags["module"] = [self.logical.get(x, x) for x in tags["module"]]
            vs.append(dict(n=v.name, ty=token(v.type), ext=bool(v.is_external_input), tags=tags,
                           **self.hnode(d, v.name)))
        self.ev.append(dict(ev="vars", d=d, vs=vs, savers=savers))

    def hnode(self, d, n):
        from hamilton import graph_types
        g = graph_types.HamiltonGraph.from_graph(self.ds[d].graph)[n]
        return dict(req=sorted(g.required_dependencies), opt=sorted(g.optional_dependencies),
                    dflt={k: sess_rt.show(x) for k, x in g.optional_dependencies_default_values.items()},
                    doc=g.documentation or "")

    def ask(self, ev, fn):
        try:
            r = fn()
            ev["ok"] = True
            if isinstance(r, bool):
                ev["v"] = r
            else:
                ev["names"] = [v.name for v in r if not v.name.startswith("sv_")]
        except Exception as ex:
            ev.update(ok=False, names=[], msg=f"{type(ex).__name__}: {ex}"[:160])
        self.ev.append(ev)

    def query(self, d):
        rng, dr = self.rng, self.ds[d]
        allv = sorted(v.name for v in dr.list_available_variables() if not v.name.startswith("sv_"))
        pick = lambda: rng.choice(allv) if rng.random() < .93 and allv else rng.choice(self.P["names"] + ["nope"])
        some = lambda: [pick() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        k = rng.choice(["list", "list", "up", "down", "path", "path", "cyc", "draw", "draw", "export", "export", "vars"])
        if k == "list":
            q = {}
            for t in rng.sample(["k1", "k2", "owner", "k", "module", "zz"], rng.choice([0, 1, 1, 2, 3])):
                r = rng.random()
                vals = sorted(self.logical.values()) if t == "module" else TAGV
                q[t] = None if r < .25 else rng.choice(vals) if r < .6 else rng.sample(vals, min(len(vals), rng.choice([1, 2, 3])))
            real = {v: kk for kk, v in self.logical.items()}
            rq = {}
            for t, x in q.items():
                if t == "module" and x is not None:
                    rq[t] = [real[y] for y in x] if isinstance(x, list) else real[x]
                else:
                    rq[t] = x
            eq = {t: ([] if x is None else x if isinstance(x, list) else [x]) for t, x in q.items()}
            self.ask(dict(ev="list", d=d, q=eq), lambda: dr.list_available_variables(tag_filter=rq))
        elif k == "up":
            ns = some()
            self.ask(dict(ev="up", d=d, ns=ns), lambda: dr.what_is_upstream_of(*ns))
        elif k == "down":
            ns = some()
            self.ask(dict(ev="down", d=d, ns=ns), lambda: dr.what_is_downstream_of(*ns))
        elif k == "path":
            x, y = pick(), pick()
            self.ask(dict(ev="path", d=d, x=x, y=y), lambda: dr.what_is_the_path_between(x, y))
        elif k == "cyc":
            ns = some()
            self.ask(dict(ev="cyc", d=d, ns=ns), lambda: dr.has_cycles(ns))
        elif k == "export":
            final, ins, ovr = self.request(d)
            ev = dict(ev="export", d=d, final=final, ins=self.show(ins), ovr=self.show(ovr), ok=True, nodes=[])
            try:
                r = json.loads(dr.export_execution(list(final), inputs=dict(ins), overrides=dict(ovr)))
                ev["nodes"] = [dict(n=x["name"], req=x["required_dependencies"], opt=x["optional_dependencies"]) for x in r["nodes"]]
            except Exception as ex:
                ev.update(ok=False, msg=f"{type(ex).__name__}: {ex}"[:160])
            self.ev.append(ev)
        elif k == "draw":
            self.draw(d, pick, some)
        else:
            self.vars(d)

    def draw(self, d, pick, some):
        rng, dr = self.rng, self.ds[d]
        kind = rng.choice(["all", "all", "up", "down", "path", "exec"])
        hide = rng.random() < .3
        kw = dict(show_legend=False, hide_inputs=hide, deduplicate_inputs=rng.random() < .4)
        ev = dict(ev="drawn", d=d, kind=kind, hide=hide, ns=[], x="", y="", strict=False, final=[], ins={}, ovr={}, ok=True,
                  nodes=[], edges=[])
        try:
            if kind == "all":
                dot = dr.display_all_functions(**kw)
            elif kind in ("up", "down"):
                ev["ns"] = some()
                f = dr.display_upstream_of if kind == "up" else dr.display_downstream_of
                dot = f(*ev["ns"], **kw)
            elif kind == "path":
                ev["x"], ev["y"], ev["strict"] = pick(), pick(), rng.random() < .5
                dot = dr.visualize_path_between(ev["x"], ev["y"], strict_path_visualization=ev["strict"], **kw)
            else:
                final, ins, ovr = self.request(d)
                ev.update(final=final, ins=self.show(ins), ovr=self.show(ovr))
                dot = dr.visualize_execution(list(final), inputs=dict(ins), overrides=dict(ovr), **kw)
            ev["nodes"], ev["edges"] = parse_dot(dot, self.dcfg[d])
        except Exception as ex:
            ev.update(ok=False, msg=f"{type(ex).__name__}: {ex}"[:160])
        self.ev.append(ev)

    def show(self, m):
        return {k: sess_rt.show(v) for k, v in m.items()}

    def request(self, d):
        rng, P, dr = self.rng, self.P, self.ds[d]
        vs = [v for v in dr.list_available_variables() if not v.name.startswith("sv_")]
        fns = sorted(v.name for v in vs if not v.is_external_input)
        ext = sorted(v.name for v in vs if v.is_external_input and v.name not in self.dcfg[d])
        keep = rng.random() < .85 or self.dkind[d]["kind"] == "async"
        ins = {x: rng.choice(VALS[P["base"][x]]) for x in ext if keep or rng.random() < .6}
        ok = fns + sorted(self.dcfg[d]) + sorted(ins)
        if not ok:
            return ["nope"], ins, {}
        final = sorted(set(rng.choice(fns if fns and rng.random() < .85 else ok) for _ in range(rng.choice([1, 1, 2, 3]))))
        if rng.random() < .04 and self.dkind[d]["kind"] != "async":
            final.append("nope")
        ovr = {x: rng.choice(VALS[P["base"][x]]) for x in fns if rng.random() < .1}
        if rng.random() < .3:
            # outside values nobody needs are harmless
            ins = dict(ins, unused_value=3)
        return final, ins, ovr

    def run(self, d):
        dr = self.ds[d]
        if self.dkind[d]["kind"] == "frame":
            return
        final, ins, ovr = self.request(d)
        ev = dict(ev="run", d=d, final=final, ins=self.show(ins), ovr=self.show(ovr), ok=True, res={}, calls=[], hooks=[])
        sess_rt.LOG.clear()
        sess_rt.HOOKS.clear()
        try:
            gf, gi, go = list(final), dict(ins), dict(ovr)
            if self.dkind[d]["kind"] == "async":
                import asyncio
                r = asyncio.run(dr.execute(gf, inputs=gi, overrides=go))
            else:
                r = dr.execute(gf, inputs=gi, overrides=go)
            ev["same"] = gf == final and gi == ins and go == ovr
            ev["res"] = {k: sess_rt.show(v) for k, v in r.items()}
        except Exception as ex:
            ev.update(ok=False, msg=f"{type(ex).__name__}: {ex}"[:160])
        ev["calls"], ev["hooks"] = list(sess_rt.LOG), list(sess_rt.HOOKS)
        self.ev.append(ev)


def rand_cfg(rng, P):
    ks = rng.sample(P["names"] + ["zz", "yy"], rng.choice([0, 1, 1, 2]))
    return {k: rng.choice(VALS[P["base"].get(k, "Any")]) for k in ks}


def scenario(seed, mix, i):
    rng = common.rng_for(seed, "sess", mix, i)
    ill = mix == "build" and rng.random() < .45
    P = program(rng, ill, cyclic=rng.random() < (.25 if mix != "session" else .1), big=rng.random() < .4)
    return dict(P=P, mix=mix, ill=ill, sseed=rng.randrange(1 << 30))


def execute(sc):
    logging.disable(logging.CRITICAL)
    P, rng = sc["P"], random.Random(sc["sseed"])
    make_hook()
    made, logical = build(P)
    try:
        S = Sess(P, rng, made, logical)
        modn = list(P["mods"])
        if sc["mix"] in ("build", "query"):
            ms = rng.sample(modn, rng.randint(1, len(modn))) if rng.random() < .4 else list(modn)
            if rng.random() < .4:
                rng.shuffle(ms)
            if rng.random() < .06 and sc["mix"] == "build":
                ms.append(rng.choice(ms))
            kv = rand_cfg(rng, P) if rng.random() < .6 else {}
            allow = rng.random() < (.5 if sc["mix"] == "build" else .9)
            if rng.random() < .3:
                d = S.direct(ms, kv, allow)
            else:
                b = S.new()
                ops = [("modules", dict(ms=ms))] + ([("config", dict(kv=kv))] if kv else []) + ([("allow", {})] if allow else [])
                if sc["ill"] and rng.random() < .2:
                    ops.append(("lenient", {}))
                if rng.random() < .2 and sc["mix"] == "build":
                    ops.append(("dynamic", {}))
                while rng.random() < .4 and sc["mix"] == "build":
                    ops.append(("validator", rand_val(rng, P)))
                rng.shuffle(ops)
                for k, kw in ops:
                    S.op(b, k, **kw)
                d = S.build(b)
            if d:
                if sc["mix"] == "build":
                    S.vars(d)
                    if not sc["ill"]:
                        S.run(d)
                        S.run(d)
                        S.vars(d)
                else:
                    for _ in range(rng.choice([3, 6, 10])):
                        S.query(d)
        else:
            session(S, rng, P, modn)
        return S.ev
    finally:
        for m in made.values():
            prog.drop_module(m)


def rand_val(rng, P):
    names = list(P["names"])
    return dict(ban=rng.choice([[], ["nope"], ["nope"], [rng.choice(names), "nope"]]), need=rng.choice(["", "", rng.choice(names)]))


def session(S, rng, P, modn):
    kind = lambda: "async" if rng.random() < .2 else "sync"
    b = S.new(kind())
    S.op(b, "modules", ms=rng.sample(modn, rng.choice([1, len(modn)])))
    if rng.random() < .6:
        S.op(b, "allow")
    for _ in range(rng.choice([8, 14, 22, 30])):
        b = rng.choice([x for x in S.bs if S.bs[x] is not None])
        sync = S.fields[b]["kind"] == "sync"
        ds = list(S.ds)
        r = rng.random()
        if r < .05:
            S.new(kind())
        elif .53 <= r < .62 and not sync:
            continue
        elif r < .14:
            S.copy(b)
        elif r < .28:
            S.op(b, "modules", ms=rng.sample(modn, rng.choice([1, 1, len(modn)])))
        elif r < .42:
            S.op(b, "config", kv=rand_cfg(rng, P))
        elif r < .48:
            S.op(b, "allow")
        elif r < .53:
            S.op(b, "hook")
            if rng.random() < .3:
                S.op(b, "validator", **rand_val(rng, P))
        elif r < .56:
            S.op(b, "dynamic")
        elif r < .62:
            S.op(b, "field", f=rng.choice(["adapter", "adapter", "local", "remote", "grouping", "manager"]))
        elif r < .65 and sync:
            S.op(b, "saver", n=rng.choice(P["names"] if rng.random() < .95 else ["nope"]))
        elif r < .77:
            S.build(b)
        elif r < .80 and ds:
            d = rng.choice(ds)
            if S.dkind[d] == dict(kind="sync", dyn=False) and not any(
                    v.name.startswith("sv_") for v in S.ds[d].list_available_variables()):
                S.clone(d)
        elif ds:
            d = rng.choice(ds)
            rng.choice([S.run, S.run, S.query, S.vars])(d)
    for d in list(S.ds):
        S.run(d)
        S.vars(d)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        ev = [dict(ev="hang")] if isinstance(r, dict) else r
        traces.append(dict(mods=enc_mods(sc["P"]), ev=ev))
        metas.append(dict(i=i, mix=sc["mix"]))
    return traces, metas


MODEL = ["UpDownDual", "PathSound", "LastWins", "UsedWithinUp", "SnapshotStable", "CopyIndependent"]


def run(rep, tier, seed, mix, n_quick, n_deep):
    n = n_quick if tier == "quick" else n_deep
    futs = common.start_models(rep, [("SessMC", "SessMC" if tier == "quick" else "SessMCDeep", MODEL, 2)])
    scs = [scenario(seed, mix, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=60)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "SessTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ev=traces[0]["ev"])]
