"""Histories of cached executions: programs that are edited between runs, behaviours, stores, engines, faults, crashes,
concurrent processes.  Everything goes through the public API (Builder.with_cache, the public store classes)."""
import json
import os
import random
import shutil
import tempfile
import time

from vp import engines, pargen, prog, vp_rt

# values whose fingerprints the code is known to tell apart
vp_rt.SPECIAL[4] = ["e"]
vp_rt.SPECIAL[5] = {"z": 2}
vp_rt.SPECIAL[7] = ("t",)

from hamilton.caching.stores.base import ResultStore  # noqa: E402,F401
from hamilton.caching.stores.file import FileResultStore  # noqa: E402
from hamilton.caching.stores.memory import InMemoryMetadataStore, InMemoryResultStore  # noqa: E402
from hamilton.caching.stores.sqlite import SQLiteMetadataStore  # noqa: E402

BEHS = ["default", "recompute", "disable", "ignore"]
NOB = {"all": "", "sets": {}, "tags": {}, "dflt": "default", "loader": "default"}


# ------------------------------------------------------------------ generation
def rand_behaviours(rng, P, rich=True, kinds=BEHS):
    b = dict(NOB, sets={}, tags={})
    nodes = list(P["nodes"])
    names = nodes + list(P["inputs"])
    if rng.random() < .35:
        for n in rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2]))):
            b["tags"][n] = rng.choice(kinds)
    if rich and rng.random() < .4:
        for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3]))):
            b["sets"][n] = rng.choice(kinds)
    if rich and rng.random() < .15:
        b["dflt"] = rng.choice(kinds)
    if rich and rng.random() < .08 and not b["sets"]:
        b["all"] = rng.choice(kinds)
    return b


def edit(rng, P, lo_leaves):
    """One edit of the program.  Returns a new program."""
    Q = dict(P, nodes={n: dict(nd) for n, nd in P["nodes"].items()}, cosm=dict(P.get("cosm", {})), mod=dict(P["mod"]))
    n = rng.choice(list(Q["nodes"]))
    nd = Q["nodes"][n]
    r = rng.random()
    if r < .35:
        nd["c"] = rng.randrange(1, 900)
    elif r < .5 and nd["params"] and nd.get("kind", "plain") == "plain":
        p = rng.choice(nd["params"])
        nd["k"] = dict(nd["k"], **{p: rng.randrange(1, 900)})
    elif r < .6 and nd["opt"]:
        p = rng.choice(list(nd["opt"]))
        nd["opt"] = dict(nd["opt"], **{p: prog.rand_code(rng)})
    elif r < .7 and nd.get("kind", "plain") == "plain" and "kind" not in nd:
        earlier = Q["order"][:Q["order"].index(n)]
        cand = [p for p in earlier + lo_leaves if p not in nd["params"]]
        if cand:
            p = rng.choice(cand)
            nd["params"] = nd["params"] + [p]
            nd["k"] = dict(nd["k"], **{p: rng.randrange(1, 900)})
        else:
            nd["c"] += 1
    elif r < .9:
        Q["cosm"][n] = rng.choice(["doc", "comment", "both", ""]) + str(rng.randrange(5))
    else:
        Q["mod"][n] = rng.randrange(2)
    return Q


def rand_history(rng, block=False, nruns=None, rich=True, impure=True, kinds=BEHS, formats=False, engines_=True, fails=True):
    if block:
        P = pargen.rand_par(rng, max_items=rng.choice([2, 3, 4]))
        P["cosm"] = {}
    else:
        P = prog.rand_program(rng, nmin=2, nmax=rng.choice([3, 4, 6, 8]), p_opt=rng.choice([0, .25, .5]), nmods=2, p_cfg=.3)
        P["cosm"] = {}
        if impure and rng.random() < .3:
            for n in rng.sample(list(P["nodes"]), 1):
                P["nodes"][n]["imp"] = 1
    P["config"] = {k: v for k, v in P["config"].items() if k not in P["nodes"]}
    leaves = list(P["inputs"])
    vals = {x: [prog.rand_code(rng) for _ in range(2)] for x in leaves}
    omittable = [x for x in leaves if all(x in nd["opt"] for nd in P["nodes"].values() if x in nd["params"])]
    for x in omittable:
        ds = [nd["opt"][x] for nd in P["nodes"].values() if x in nd["params"]]
        if ds and rng.random() < .5:
            vals[x][0] = ds[0]
    versions = [P]
    behs = [dict(NOB, sets={}, tags={})] + [rand_behaviours(rng, P, rich, kinds) for _ in range(2)]
    imp = [n for n in P["nodes"] if "imp" in P["nodes"][n]]
    for b in behs:
        for n in imp:
            b["tags"][n] = "recompute"     # documented contract: non-deterministic nodes are RECOMPUTE
            b["sets"].pop(n, None)
            if b["all"] in ("default", "ignore"):
                b["all"] = ""
    if rng.random() < .5:
        behs = behs[:1]
    fmt = {}
    if formats and rng.random() < .3:
        fmt = {n: "pickle" for n in rng.sample(list(P["nodes"]), 1) if P["nodes"][n].get("kind", "plain") == "plain"}
    steps = []
    cur = P
    for i in range(nruns or rng.choice([2, 3, 4, 5])):
        if i and rng.random() < .4:
            if rng.random() < .25:
                cur = rng.choice(versions)
            else:
                cur = edit(rng, cur, leaves)
                versions.append(cur)
        Q = dict(cur, inputs={x: vals[x][0 if rng.random() < .75 else 1] for x in leaves}, overrides={}, ovseq={}, fail=[],
                 none_in=True)
        for x in omittable:
            if rng.random() < .4 and all(x in nd["opt"] for nd in Q["nodes"].values() if x in nd["params"]):
                del Q["inputs"][x]
        if block:
            pool = P["collects"] + P["post"] + P["outside"]
            fin = rng.sample(pool, min(len(pool), rng.choice([1, 2])))
            if not any(f in P["collects"] + P["post"] for f in fin):
                fin.append(rng.choice(P["collects"]))
        else:
            nodes = list(P["nodes"])
            fin = rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2, 3])))
            if rng.random() < .2:
                for x in rng.sample(nodes, 1):
                    Q["overrides"][x] = prog.rand_code(rng)
            if rng.random() < .08:
                x = rng.choice(nodes)
                Q["overrides"][x] = 0
            if rng.random() < .1 and Q["inputs"]:      # an input that is overridden as well
                Q["overrides"][rng.choice(list(Q["inputs"]))] = prog.rand_code(rng)
        if fails and not block and rng.random() < .1:
            Q["fail"] = [rng.choice(list(P["nodes"]))]
        Q["final"] = fin
        if block:
            eng = "task:" + rng.choice(["blocks", "default"]) + ":" + rng.choice(["sync", "thread3"])
        else:
            eng = rng.choice(["default", "default", "default", "task:blocks:sync", "task:each:sync", "task:level:sync",
                              "task:one:sync"]) if engines_ else "default"
        steps.append(dict(op="run", P=Q, b=rng.choice(behs), engine=eng, reuse=rng.random() < .4))
    store = rng.choice(["file", "file", "file", "memory", "mixed"])
    if fmt:
        store = "file"
    return dict(steps=steps, store=store, block=block, fmt=fmt)


def literal_history(rng):
    """two runs that differ only in a configuration value which a delayed decorator (@resolve) turns into a literal"""
    P = prog.rand_program(rng, nmin=2, nmax=4, p_opt=0, nmods=1, p_cfg=0)
    P.update(cosm={}, lits=[rng.choice(list(P["nodes"]))], overrides={}, ovseq={}, fail=[], none_in=True, final=[P["order"][-1]])
    P["final"] = sorted({P["lits"][0], P["order"][-1]})
    n = P["lits"][0]
    Q = dict(P, nodes={**P["nodes"], n: dict(P["nodes"][n], c=P["nodes"][n]["c"] + 1)})
    b = dict(NOB, sets={}, tags={})
    return dict(steps=[dict(op="run", P=p, b=b, engine="default", reuse=False) for p in (P, P, Q)], store="file", block=False, fmt={},
                literal=True)


# ------------------------------------------------------------------ rendering
def render(P, b, fmt):
    src = pargen.render(P) if "collects" in P else None
    pre = "from hamilton.function_modifiers import ResolveAt, cache, inject, resolve, value\n"
    deco = {}
    for n in P["nodes"]:
        args = []
        if n in b["tags"]:
            args.append(f'behavior="{b["tags"][n]}"')
        if n in fmt:
            args.append(f'format="{fmt[n]}"')
        if args:
            deco[n] = f"@cache({', '.join(args)})\n"
    per, defs = {}, {}
    for n, nd in P["nodes"].items():
        if src is not None:
            one = pargen.render(dict(P, nodes={n: nd}, mod={n: 0}))[0][len(prog.HEADER):]
            one = deco.get(n, "") + one
        else:
            one = prog.fn_source(n, nd, deco=deco.get(n, ""), call="ifn" if "imp" in nd else "fn")
            if n in P.get("lits", ()):      # the constant comes from the configuration through a delayed decorator
                one = ("@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda lit_%s: inject(lit_=value(lit_%s)))\n" % (n, n)
                       + one.replace("(", "(lit_: int, ", 1).replace(f"c={nd['c']}", "c=lit_"))
        consts = ""
        for p, c in nd["opt"].items():      # the default is a module constant: not part of the function's source
            consts += f"_D_{n}_{p} = _rt.dec({c})\n"
            one = one.replace(f"{p}: Any = _rt.dec({c})", f"{p}: Any = _D_{n}_{p}")
        per[n] = one
        defs[n] = consts
    mods = [prog.HEADER + pre for _ in range(2)]
    order = list(P["nodes"])
    for n in order:
        mods[P["mod"][n] % 2] += defs[n] + cosmetic(per[n], P["cosm"].get(n, ""))
    return [m for m in mods], per


def cosmetic(src, c):
    if not c:
        return src
    head, body = src.rstrip("\n").rsplit("\n", 1)
    ins = ""
    if c.startswith(("doc", "both")):
        ins += f'    """Documentation {c}."""\n'
    if c.startswith(("comment", "both")):
        ins += f"    # a remark {c}\n"
    return head + "\n" + ins + body + "\n\n"


def spec_prog(P, per, cvs):
    nodes = {}
    for n, nd in P["nodes"].items():
        x = dict(nd)
        key = (n, per[n], nd["c"])
        x["cv"] = cvs.setdefault(key, len(cvs) + 1)
        nodes[n] = x
    return dict(nodes=nodes, order=P["order"], config=P["config"], inputs=P["inputs"], overrides=P["overrides"],
                ovseq=P["ovseq"], final=P["final"], fail=P["fail"])


# ------------------------------------------------------------------ stores with scripted faults
class Stop:
    at = None          # (operation index, "before"|"after", tear)
    count = 0
    dump = None

    @classmethod
    def hit(cls, when, path=None):
        if cls.at is None:
            return
        if when == "before":
            cls.count += 1
        if cls.count == cls.at[0] and when == cls.at[1]:
            if cls.at[2] is not None and path is not None and os.path.exists(path):
                size = os.path.getsize(path)
                with open(path, "r+b") as f:
                    f.truncate(int(size * cls.at[2]))
            cls.dump()
            os._exit(17)


class CrashResults(FileResultStore):
    def set(self, data_version, *a, **kw):
        Stop.hit("before")
        r = super().set(data_version, *a, **kw)
        Stop.hit("after", os.path.join(str(self.path), data_version))
        return r

    def delete(self, data_version):
        Stop.hit("before")
        r = super().delete(data_version)
        Stop.hit("after")
        return r


class VanishResults(FileResultStore):
    """another process deletes the entry between the lookup and the read"""
    script = []        # True: vanish at this read

    def get(self, data_version, *a, **kw):
        if VanishResults.script and VanishResults.script.pop(0):
            from hamilton.caching import fingerprinting
            code = next((c for c in VanishResults.session.codes if fingerprinting.hash_value(vp_rt.dec(c)) == data_version), None)
            if code is not None and code != 0:     # a vanished None still reads as None
                for f in VanishResults.session.files_of(code):
                    os.remove(f)
                vp_rt.emit(ev="dropres", v=code)
        return super().get(data_version, *a, **kw)


class CrashMeta(SQLiteMetadataStore):
    def set(self, *a, **kw):
        Stop.hit("before")
        r = super().set(*a, **kw)
        Stop.hit("after")
        return r

    def delete(self, *a, **kw):
        Stop.hit("before")
        r = super().delete(*a, **kw)
        Stop.hit("after")
        return r


# ------------------------------------------------------------------ running
class Session:
    def __init__(self, hist):
        self.h = hist
        self.d = tempfile.mkdtemp(prefix="vp-cache-")
        self.cvs = {}
        self.ev = []
        self.mem = None
        self.drv = {}
        self.mods = []
        self.codes = set()
        self.writers = {}      # code -> written?

    def stores(self, crash=False):
        k = self.h["store"]
        if crash:
            return dict(path=self.d, metadata_store=CrashMeta(path=self.d), result_store=CrashResults(path=self.d))
        if k == "vanish":
            return dict(path=self.d, result_store=VanishResults(path=self.d))
        if k == "file":
            return dict(path=self.d)
        if self.mem is None:
            self.mem = (InMemoryMetadataStore(), InMemoryResultStore())
        if k == "memory":
            return dict(metadata_store=self.mem[0], result_store=self.mem[1])
        return dict(path=self.d, metadata_store=self.mem[0])

    def driver(self, st, crash=False):
        P, b = st["P"], st["b"]
        srcs, per = render(P, b, self.h.get("fmt", {}))
        key = json.dumps([srcs, b, st["engine"], P["config"], [P["nodes"][n]["c"] for n in P.get("lits", ())]], sort_keys=True)
        if st["reuse"] and key in self.drv and not crash:
            return self.drv[key], per
        mods = prog.build_modules(srcs)
        self.mods += mods
        kw = self.stores(crash)
        if b["all"]:
            kw[b["all"]] = True
        for n, be in b["sets"].items():
            kw.setdefault(be, []).append(n)
        if b["dflt"] != "default":
            kw["default_behavior"] = b["dflt"]
        bld = engines.builder_for(P, mods, st["engine"]).with_cache(**kw)
        if P.get("lits"):
            bld = bld.with_config({"hamilton.enable_power_user_mode": True, **{f"lit_{n}": P["nodes"][n]["c"] for n in P["lits"]}})
        dr = bld.build()
        if not crash:
            self.drv[key] = dr
        return dr, per

    def request(self, dr, st, per, mode):
        P = st["P"]
        sp = spec_prog(P, per, self.cvs)
        vp_rt.reset(P["fail"])
        out = [dict(ev="run", p=sp, b=st["b"], mode=mode)]
        if self.h["block"]:
            try:
                r = dr.execute(list(P["final"]), inputs=prog.dec_map(P["inputs"]), overrides=prog.dec_map(P["overrides"]))
                out += list(vp_rt.LOG) + [dict(ev="return", res=pargen.enc_result(P, r))]
            except Exception as ex:
                out += list(vp_rt.LOG) + [dict(ev="raise", cls=type(ex).__name__, msg=str(ex)[:300],
                                               who=ex.name if isinstance(ex, vp_rt.Boom) else "")]
        else:
            out += engines.run_request(dr, P)
        for x in out:
            if x["ev"] == "call" and x["out"] >= 0:
                self.codes.add(x["out"])
        return out

    def after(self, dr, st, out):
        """what the cache says about the run"""
        extra = []
        rid = dr.cache.last_run_id
        if not self.h["block"]:
            lg = dr.cache.logs(rid, level="info")
            ex, got = [], []
            for k, evs in lg.items():
                name = k[0] if isinstance(k, tuple) else k
                for x in evs:
                    (ex if x.event_type.value == "execute_node" else got).append(name)
            extra.append(dict(ev="log", exec=ex, got=got))
        beh = {n: x.name.lower() for n, x in dr.cache.behaviors[rid].items()}
        extra.append(dict(ev="behav", beh=beh))
        has = []
        for c in sorted(self.codes):
            has.append({"v": c, "in": bool(dr.cache.result_store.exists(dr.cache.version_data(vp_rt.dec(c), run_id=rid)))})
        extra.append(dict(ev="probe", has=has))
        return extra

    def close(self):
        for m in self.mods:
            prog.drop_module(m)
        self.drv.clear()
        shutil.rmtree(self.d, ignore_errors=True)

    # ---- faults on the stored data (files and the metadata store's public interface)
    def files_of(self, code):
        from hamilton.caching import fingerprinting
        v = fingerprinting.hash_value(vp_rt.dec(code))
        return [os.path.join(self.d, f) for f in os.listdir(self.d) if f == v or f.startswith(v + ".")]

    def fault(self, st, dr):
        op = st["op"]
        if op == "dropres":
            for f in self.files_of(st["v"]):
                os.remove(f)
            self.ev.append(dict(ev="dropres", v=st["v"]))
        elif op == "corrupt":
            for f in self.files_of(st["v"]):
                how = st["how"]
                if how == "empty":
                    open(f, "wb").close()
                elif how == "half":
                    with open(f, "r+b") as h:
                        h.truncate(os.path.getsize(f) // 2)
                else:
                    with open(f, "wb") as h:
                        h.write(b"\x00garbage\xff" * 3)
            self.ev.append(dict(ev="corrupt", v=st["v"]))
        elif op == "dropallres":
            for f in os.listdir(self.d):
                if not f.startswith("metadata_store"):
                    os.remove(os.path.join(self.d, f))
            self.ev.append(dict(ev="dropallres"))
        elif op == "dropallmeta":
            self.drv.clear()
            for f in os.listdir(self.d):
                if f.startswith("metadata_store"):
                    os.remove(os.path.join(self.d, f))
            self.ev.append(dict(ev="dropallmeta"))

    def fork_run(self, st, mode, crash=None, barrier=None):
        """runs one request in a child process; returns its pid and the file its events go to"""
        fd, path = tempfile.mkstemp(prefix="vp-child-")
        os.close(fd)
        pid = os.fork()
        if pid:
            return pid, path
        code = 0
        try:
            self.drv.clear()
            out = []

            def dump(final=()):
                with open(path, "w") as f:
                    json.dump([dict(ev="run", p=spec_prog(st["P"], render(st["P"], st["b"], self.h.get("fmt", {}))[1], self.cvs),
                                    b=st["b"], mode=mode)] + list(vp_rt.LOG) + [dict(ev="crash")], f)
            if crash is not None:
                Stop.at, Stop.count, Stop.dump = tuple(crash), 0, dump
            if barrier is not None:
                jitter(random.Random(st["jit"]))
                os.read(barrier, 1)
            dr, per = self.driver(st, crash=crash is not None)
            out = self.request(dr, st, per, mode)
            with open(path, "w") as f:
                json.dump(out, f)
        except BaseException:
            import traceback
            with open(path, "w") as f:
                json.dump([dict(ev="harness", tb=traceback.format_exc())], f)
            code = 3
        finally:
            os._exit(code)

    def collect(self, pid, path):
        os.waitpid(pid, 0)
        try:
            with open(path) as f:
                out = json.load(f)
        finally:
            os.remove(path)
        if out and out[0]["ev"] == "harness":
            raise RuntimeError(out[0]["tb"])
        return out


def jitter(rng):
    """random pauses at file-system calls: more interleavings of concurrent processes, no change of meaning"""
    def slow(f):
        def g(*a, **kw):
            if rng.random() < .5:
                time.sleep(rng.choice([0, .001, .004]))
            r = f(*a, **kw)
            if rng.random() < .5:
                time.sleep(rng.choice([0, .001, .004]))
            return r
        return g
    for n in ("replace", "rename", "unlink", "remove", "link", "stat"):
        setattr(os, n, slow(getattr(os, n)))


def execute(hist):
    s = Session(hist)
    vp_rt.NONCE[0] = 0
    VanishResults.session, VanishResults.script = s, list(hist.get("script", []))
    try:
        for st in hist["steps"]:
            if st["op"] == "run":
                dr, per = s.driver(st)
                mode = "block" if hist["block"] else "seq"
                out = s.request(dr, st, per, mode)
                s.ev += out + s.after(dr, st, out)
            elif st["op"] == "crashrun":
                render_now(s, st)
                pid, path = s.fork_run(st, "seq", crash=st["crash"])
                out = s.collect(pid, path)
                s.codes.update(x["out"] for x in out if x["ev"] == "call" and x["out"] >= 0)
                s.ev += out
            elif st["op"] == "conc":
                s.ev.append(dict(ev="fork"))
                for j, x in enumerate(st["runs"]):
                    x["jit"] = j
                    render_now(s, x)
                r, w = os.pipe()
                kids = [s.fork_run(x, "conc", barrier=r) for x in st["runs"]]
                os.write(w, b"x" * len(kids))
                vs = set()
                for k in kids:
                    out = s.collect(*k)
                    vs.update(x["out"] for x in out if x["ev"] == "call" and x["out"] >= 0)
                    s.ev += out
                os.close(r)
                os.close(w)
                s.codes |= vs
                s.ev.append(dict(ev="join", vs=sorted(vs)))
            elif st["op"] == "FAULT":
                s.fault(aim(random.Random(st["r"]), s), None)
            else:
                s.fault(st, None)
        return s.ev
    finally:
        s.close()


def aim(rng, s):
    """pick a fault that hits something the history has produced"""
    r = rng.random()
    if r < .06:
        return dict(op="dropallres")
    if r < .12:
        return dict(op="dropallmeta")
    v = rng.choice(sorted(s.codes)) if s.codes else 20
    if r < .45:
        return dict(op="dropres", v=v)
    return dict(op="corrupt", v=v, how=rng.choice(["empty", "half", "garbage"]))


def render_now(s, st):
    """give the program its code-version numbers in the parent, so that all processes agree on them"""
    _, per = render(st["P"], st["b"], s.h.get("fmt", {}))
    spec_prog(st["P"], per, s.cvs)
