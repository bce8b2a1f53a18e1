"""C11: metadata and result stores are interchangeable, through any number of handles, across re-opening and copying."""
import os
import random
import shutil
import tempfile
import threading

from vp import cachegen, common, prog, vp_rt


def scenario(seed, i):
    rng = common.rng_for(seed, "c11", i)
    ops = []
    nk, nv, nr = rng.choice([2, 3, 4]), rng.choice([2, 3]), 6
    started = []
    for _ in range(rng.choice([8, 15, 25, 40])):
        h = rng.randrange(3)
        r = rng.random()
        if not started or r < .1:
            x = f"r{len(started)}"
            started.append(x)
            ops.append(dict(op="init", r=x, h=h))
        elif r < .3:
            ops.append(dict(op="set", r=rng.choice(started), k=rng.randrange(nk), v=rng.randrange(nv), named=rng.random() < .6, h=h))
        elif r < .36:
            ops.append(dict(op="delete", k=rng.randrange(nk + 1), h=h))
        elif r < .38:
            ops.append(dict(op="delete_all", h=h))
            started_all = started
            started = []
            ops[-1]["gone"] = list(started_all)
        elif r < .46:
            ops.append(dict(op="get", k=rng.randrange(nk + 1), h=h))
        elif r < .5:
            ops.append(dict(op="exists", k=rng.randrange(nk + 1), h=h))
        elif r < .53:
            ops.append(dict(op="len", h=h))
        elif r < .56:
            ops.append(dict(op=rng.choice(["run_ids", "last_run"]), h=h))
        elif r < .66:
            ops.append(dict(op="get_run", r=rng.choice(started + ["r77"]), h=h))
        elif r < .76:
            ops.append(dict(op="rset", v=rng.randrange(nv), c=prog.rand_code(rng), mat=rng.random() < .2, h=h))
        elif r < .79:
            ops.append(dict(op="rdelete", v=rng.randrange(nv + 1), h=h))
        elif r < .81:
            ops.append(dict(op=rng.choice(["rdelete_all", "rexpire"]), h=h))
        elif r < .88:
            ops.append(dict(op="rget", v=rng.randrange(nv + 1), h=h))
        elif r < .92:
            ops.append(dict(op="rexists", v=rng.randrange(nv + 1), h=h))
        elif r < .95:
            ops.append(dict(op="reopen", h=h))
        elif r < .98:
            ops.append(dict(op="copymeta", h=h))
        else:
            ops.append(dict(op="copyres", h=h))
    # run ids are unique over the whole history
    n, ren, out = 0, {}, []
    for o in ops:
        o = dict(o)
        if o["op"] == "init":
            ren[o["r"]] = f"run{n}"
            n += 1
        if "r" in o:
            o["r"] = ren.get(o["r"], o["r"])
        out.append(o)
    # observe everything at the end
    for k in range(nk):
        out.append(dict(op="get", k=k, h=rng.randrange(3)))
    for v in range(nv):
        out.append(dict(op="rget", v=v, h=rng.randrange(3)))
    out += [dict(op="len", h=0), dict(op="run_ids", h=1)] + [dict(op="get_run", r=r, h=2) for r in sorted(set(ren.values()))]
    return dict(ops=out, meta=rng.choice(["sqlite", "sqlite", "memory"]), res=rng.choice(["file", "file", "memory"]),
                shared=rng.random() < .5, threads=rng.random() < .3, deps=[rng.choice([{}, {"a": "v1"}, {"b": "x==", "a": "y-_"},
                {"raw_x": "<ignore>", "a": "<none>"}]) for _ in range(nk + 1)])


class H:
    """three handles onto one metadata store and one result store"""

    def __init__(self, sc, d):
        from hamilton.caching.cache_key import create_cache_key
        self.sc = sc
        self.md = os.path.join(d, "m")
        self.rd = self.md if sc["shared"] else os.path.join(d, "r")
        self.keys = [create_cache_key(f"node_{j}", f"{j}abc{j}", dep) for j, dep in enumerate(sc["deps"])]
        self.names = {k: f"k{j}" for j, k in enumerate(self.keys)}
        self.n = 0
        self.d = d
        self.open_meta()
        self.open_res()

    def open_meta(self):
        if self.sc["meta"] == "memory":
            self.m = [cachegen.InMemoryMetadataStore()] * 3
        else:
            self.m = [cachegen.SQLiteMetadataStore(path=self.md) for _ in range(3)]

    def open_res(self):
        if self.sc["res"] == "memory":
            self.r = [cachegen.InMemoryResultStore()] * 3
        else:
            self.r = [cachegen.FileResultStore(path=self.rd) for _ in range(3)]

    def do(self, o):
        op, m, r = o["op"], self.m[o["h"]], self.r[o["h"]]
        if op == "init":
            m.initialize(o["r"])
        elif op == "set":
            kw = dict(node_name=f"node_{o['k']}", code_version=f"{o['k']}abc{o['k']}") if o["named"] else {}
            m.set(cache_key=self.keys[o["k"]], data_version=f"v{o['v']}", run_id=o["r"], **kw)
        elif op == "delete":
            m.delete(cache_key=self.keys[o["k"]])
        elif op == "delete_all":
            m.delete_all()
        elif op == "get":
            x = m.get(cache_key=self.keys[o["k"]])
            return "none" if x is None else x
        elif op == "exists":
            return "true" if m.exists(cache_key=self.keys[o["k"]]) else "false"
        elif op == "len":
            return len(m)
        elif op == "run_ids":
            return list(m.get_run_ids())
        elif op == "last_run":
            return m.last_run_id if len(m.get_run_ids()) else "none"
        elif op == "get_run":
            return [[self.names.get(x["cache_key"], "?"), x["data_version"]] for x in m.get_run(o["r"])]
        elif op == "rset":
            if o["mat"] and self.sc["res"] == "file":
                from hamilton.caching.stores.base import search_data_adapter_registry
                val = vp_rt.dec(o["c"])
                s, ld = search_data_adapter_registry(name="pickle", type_=type(val))
                r.set(f"v{o['v']}", val, saver_cls=s, loader_cls=ld)
            else:
                r.set(f"v{o['v']}", vp_rt.dec(o["c"]))
        elif op == "rdelete":
            r.delete(f"v{o['v']}")
        elif op == "rdelete_all":
            r.delete_all()
        elif op == "rexpire":
            r.delete_expired()
        elif op == "rget":
            x = r.get(f"v{o['v']}")
            if x is None and not r.exists(f"v{o['v']}"):
                return -3
            return vp_rt.enc(x)
        elif op == "rexists":
            return "true" if r.exists(f"v{o['v']}") else "false"
        elif op == "reopen":
            if self.sc["meta"] == "sqlite":
                self.m[o["h"]] = cachegen.SQLiteMetadataStore(path=self.md)
            if self.sc["res"] == "file":
                self.r[o["h"]] = cachegen.FileResultStore(path=self.rd)
        elif op == "copymeta":
            self.n += 1
            mem = m if self.sc["meta"] == "memory" else cachegen.InMemoryMetadataStore.load_from(m)
            self.md = os.path.join(self.d, f"m{self.n}")
            disk = cachegen.SQLiteMetadataStore(path=self.md)
            mem.persist_to(disk)
            if self.sc["meta"] == "memory":
                self.m = [cachegen.InMemoryMetadataStore.load_from(disk)] * 3
            else:
                self.open_meta()
        elif op == "copyres":
            self.n += 1
            mem = cachegen.InMemoryResultStore.load_from(r, metadata_store=m)
            self.rd = os.path.join(self.d, f"r{self.n}")
            if self.sc["res"] == "memory":
                self.r = [mem] * 3
            else:
                mem.persist_to(cachegen.FileResultStore(path=self.rd))
                self.open_res()
        return "ok"


def execute(sc):
    d = tempfile.mkdtemp(prefix="vp-stores-")
    ev = []
    try:
        hs = H(sc, d)
        for o in sc["ops"]:
            e = dict(ev=o["op"])
            if "r" in o:
                e["r"] = o["r"]
            if "k" in o:
                e["k"] = f"k{o['k']}"
            if "v" in o:
                e["v"] = f"v{o['v']}"
            if "c" in o:
                e["c"] = o["c"]
            box = []

            def go():
                try:
                    box.append((hs.do(o), ""))
                except Exception as ex:
                    box.append((None, type(ex).__name__))
            if sc["threads"]:
                t = threading.Thread(target=go)
                t.start()
                t.join()
            else:
                go()
            out, err = box[0]
            if o["op"] == "get_run":
                e["err"], e["out"] = err, out if not err else []
            elif err:
                e["out"] = -9 if o["op"] in ("len", "rget") else ([] if o["op"] == "run_ids" else f"raised {err}")
                if o["op"] == "run_ids":
                    e["out"] = ["raised " + err]
            else:
                e["out"] = out
            ev.append(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


def check(rep, tier, seed):
    n = 2500 if tier == "quick" else 20000
    futs = common.start_models(rep, [("StoresMC", "StoresMC" if tier == "quick" else "StoresMCDeep",
                                      ["Accounted", "RowsCurrent", "ResultsTheirs", "NoDuplicates"], 3)])
    scs = [scenario(seed, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=20)
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(ev=r if isinstance(r, list) else [dict(ev="hang" if "hang" in r else "crash")]))
        metas.append({k: sc[k] for k in ("meta", "res", "shared", "threads")} | dict(i=i))
    common.judge(rep, "StoresTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [traces[0]]
