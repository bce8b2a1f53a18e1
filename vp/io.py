"""Generator and recorder for loading and saving (IO.tla)."""
import logging
import random

from vp import common, io_rt, prog

NAMES = ["a", "b", "path", "key", "x", "data", "out", "raw", "a_b", "mode", "total"]
LITS = [0, 1, "", "s", None, False, "a", 2.5]
FIELDS = ["path", "key", "a", "x", "mode"]
TYS = ["T1", "T2", "T3"]


def klass(rng, i, anyok):
    fs = rng.sample(FIELDS, rng.choice([0, 1, 2, 2, 3]))
    opt = [f for f in fs if rng.random() < .45]
    fs = [f for f in fs if f not in opt] + opt
    optv = {f: rng.choice(LITS) for f in opt}
    types = ["Any"] if anyok and rng.random() < .5 else rng.sample(TYS, rng.choice([1, 1, 2]))
    return dict(cls=f"C{i}", types=types, fields=fs, req=[f for f in fs if f not in opt], optv=optv)


def rand_args(rng, cands, names, bad=.06):
    """arguments that suit the class most likely meant (last of the candidates), sometimes not"""
    c = rng.choice(cands) if cands else dict(req=[], optv={}, fields=[])
    out = {}
    for f in c["fields"]:
        if f in c["optv"] and rng.random() < .4:
            continue
        if rng.random() < bad:
            continue
        out[f] = dict(t="src", s=rng.choice(names)) if rng.random() < .65 else dict(t="lit", pv=rng.choice(LITS), raw=rng.random() < .5)
    if rng.random() < bad:
        out[rng.choice(FIELDS + ["zz"])] = dict(t="lit", pv=1, raw=True)
    return out


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.kinds = {"load": {}, "save": {}}
        i = 0
        for w in ("load", "save"):
            for k in ("k1", "k2"):
                cs = []
                for j in range(rng.choice([1, 2, 3])):
                    i += 1
                    # (whether one that takes anything yields to a more special one registered before it differs; not claimed)
                    c = klass(rng, i, w == "load" or j == 0)
                    if "Any" in c["types"] and w == "load":
                        c["types"] = ["Any"]
                    cs.append(c)
                self.kinds[w][k] = cs
        names = rng.sample(NAMES, 8)
        self.fns, self.exts = names[:5], names[5:7]
        self.cfgk = names[7]
        self.free = ["q1", "q2", "q_opt"]
        self.ty = {n: rng.choice(TYS) for n in self.fns + self.exts}
        self.n = 0

    def fits(self, w, k, ty):
        cs = self.kinds[w][k]
        good = [c for c in cs if any(t == "Any" or (ty in io_rt.SUB[t] if w == "load" else t in io_rt.SUB.get(ty, [ty])) for t in c["types"])]
        sp = [c for c in good if "Any" not in c["types"]]
        return (sp or good)[-1:] or cs[-1:]

    def kind(self, w, ty):
        """most often a kind with an adapter for the type"""
        ks = [k for k in ("k1", "k2") if any(True for c in self.kinds[w][k]
              if any(t == "Any" or (ty in io_rt.SUB[t] if w == "load" else t in io_rt.SUB.get(ty, [ty])) for t in c["types"]))]
        return self.rng.choice(ks) if ks and self.rng.random() < .95 else self.rng.choice(["k1", "k2"])

    def srcs(self, upto):
        return self.fns[:upto] + self.free + [self.cfgk]

    def decl(self, i):
        rng, n = self.rng, self.fns[i]
        pool = self.fns[:i] * 2 + self.exts
        ps = list(dict.fromkeys(rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))))
        k = rng.choice(["fn"] * 6 + ["dataloader", "dataloader", "datasaver"])
        loads = []
        pty = {p: (self.ty[p] if self.ty[p] != "T2" or p in self.exts or rng.random() < .6 else "T1") for p in ps}
        if k == "fn" and rng.random() < .35:
            for q in rng.sample(["data_in", "key", "other", "path"], rng.choice([1, 1, 2])):
                if q in ps or q in self.fns[i:] + self.exts + [self.cfgk]:
                    continue
                ty = rng.choice(TYS)
                if q in self.fns[:i] and rng.random() < .5:
                    continue
                ps.insert(rng.randint(0, len(ps)), q)
                pty[q] = ty
                kk = self.kind("load", ty)
                loads.append(dict(on=q, kind=kk, args=rand_args(rng, self.fits("load", kk, ty), self.srcs(i), .015)))
        loaded = [x["on"] for x in loads]
        # a default of a parameter that is computed is never used
        dfl = {p: rng.choice(LITS) for p in ps if p in self.exts and p not in loaded and rng.random() < .3}
        ps = [p for p in ps if p not in dfl] + [p for p in ps if p in dfl]
        saves = []
        if k == "datasaver":
            self.ty[n] = "dict"
        if rng.random() < .3 and k == "fn":
            kk = self.kind("save", self.ty[n])
            self.n += 1
            oid = rng.choice([f"save.{n}", f"sv{self.n}"])
            saves.append(dict(id=oid, kind=kk, args=rand_args(rng, self.fits("save", kk, self.ty[n]), self.srcs(i + 1), .015)))
        return dict(k=k, n=n, ps=ps, ty=self.ty[n], pty=pty, pv=dfl, loads=loads, saves=saves)

    def mats(self, have, bad=.05):
        """have: ids of savers already in the graph"""
        rng, out = self.rng, []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < .62:
                self.n += 1
                comb = rng.random() < .45
                pool = [f for f in self.fns] * 2 + self.exts
                deps = list(dict.fromkeys(rng.choice(pool) for _ in range(rng.choice([1, 2, 3]) if comb or rng.random() < bad else 1)))
                if rng.random() < bad:
                    deps[0] = "nope"
                if not comb and have and rng.random() < .1:
                    deps = [rng.choice(have)]
                cty = rng.choice(TYS)
                ty = cty if comb else self.ty.get(deps[0], "dict")
                kk = self.kind("save", ty)
                oid = f"m{self.n}"
                if rng.random() < bad:
                    oid = rng.choice(self.fns + have + [m["id"] for m in out if m["k"] == "to"])
                out.append(dict(k="to", id=oid, kind=kk, deps=deps, comb=f"J{self.n}" if comb else "", cty=cty,
                                args=rand_args(rng, self.fits("save", kk, ty), self.srcs(5), .03), byfn=rng.random() < .2))
            else:
                t = rng.choice(self.fns * 2 + self.exts) if rng.random() > bad else "nope"
                if any(m.get("target") == t for m in out) or self.ty.get(t) == "dict":
                    continue
                kk = self.kind("load", self.ty.get(t, "T1"))
                # (a loader reading what depends on its own target would be circular)
                out.append(dict(k="from", target=t, kind=kk, args=rand_args(rng, self.fits("load", kk, self.ty.get(t, "T1")), self.free + [self.cfgk], .03)))
        return out


def scenario(seed, i):
    rng = common.rng_for(seed, "io", i)
    g = Gen(rng)
    decls = [g.decl(j) for j in range(rng.choice([2, 3, 4, 5]))]
    g.fns = g.fns[:len(decls)]
    have = [s["id"] for d in decls for s in d["saves"]]
    mats = g.mats(have) if rng.random() < .6 else []
    have = have + [m["id"] for m in mats if m["k"] == "to"]
    steps = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = rng.choice(["run", "run", "mat", "mat", "mat", "val"])
        final = sorted(set(rng.choice(g.fns + have) for _ in range(rng.choice([0, 1, 1, 2]))))
        if k == "run":
            final = final or [g.fns[-1]]
            if rng.random() < .03:
                final = final + ["nope"]
        ins = {x: None for x in g.exts + g.free if rng.random() < (.97 if x != "q_opt" else .5)}
        ovr = {x: None for x in g.fns if rng.random() < .08}
        steps.append(dict(ev=k, final=final, ins=sorted(ins), ovr=sorted(ovr), mats=g.mats(have) if k != "run" else []))
        if steps[-1]["mats"] and rng.random() < .25:  # the saver's own name can be asked for as well
            steps[-1]["final"] = sorted(set(final) | {rng.choice([m.get("id") or m["target"] for m in steps[-1]["mats"]])})
    return dict(kinds=g.kinds, decls=decls, mats=mats, steps=steps, cfgk=g.cfgk, exts=g.exts, free=g.free, ty=g.ty,
                dyn=rng.random() < .25, hooked=rng.random() < .5, sseed=rng.randrange(1 << 30))


def rb(b):
    if b["t"] == "src":
        return f"source({b['s']!r})"
    return repr(b["pv"]) if b["raw"] else f"value({b['pv']!r})"


def source(sc, tag):
    src = ("from typing import Any, Tuple\nfrom vp import io_rt as _rt\nfrom vp.io_rt import T1, T2, T3\n"
           "from hamilton.function_modifiers import load_from, save_to, dataloader, datasaver, source, value\n\n")
    for d in sc["decls"]:
        for x in reversed(d["loads"]):
            src += f"@load_from.{tag}{x['kind']}(inject_={x['on']!r}" + "".join(f", {a}={rb(b)}" for a, b in x["args"].items()) + ")\n"
        for x in d["saves"]:
            o = "" if x["id"] == f"save.{d['n']}" else f"output_name_={x['id']!r}, "
            src += f"@save_to.{tag}{x['kind']}({o}" + ", ".join(f"{a}={rb(b)}" for a, b in x["args"].items()) + ")\n"
        if d["k"] != "fn":
            src += f"@{d['k']}()\n"
        ps = ", ".join(f"{p}: {d['pty'][p]}" + (f" = {d['pv'][p]!r}" if p in d["pv"] else "") for p in d["ps"])
        ret = {"fn": d["ty"], "dataloader": f"Tuple[{d['ty']}, dict]", "datasaver": "dict"}[d["k"]]
        src += f"def {d['n']}({ps}) -> {ret}:\n    return _rt.call({d['k']!r}, {d['n']!r}, [{', '.join(d['ps'])}])\n\n"
    return src


def enc_args(a):
    return {k: (dict(t="src", s=b["s"]) if b["t"] == "src" else dict(t="lit", v=io_rt.show(b["pv"]))) for k, b in a.items()}


def enc_mats(ms):
    out = []
    for m in ms:
        m2 = {k: v for k, v in m.items() if k != "byfn"}
        m2["args"] = enc_args(m["args"])
        out.append(m2)
    return out


def execute(sc):
    from hamilton import base, driver, registry
    from hamilton.execution import executors
    from hamilton.function_modifiers import source as Src, value as Val
    from hamilton.io.materialization import from_, to
    logging.disable(logging.CRITICAL)
    rng = random.Random(sc["sseed"])
    tag = prog.uid("vpk") + "_"
    ev, mod = [], None
    joiners = {}
    try:
        for w in ("load", "save"):
            for k, cs in sc["kinds"][w].items():
                for c in cs:
                    registry.register_adapter(io_rt.adapter(c, tag + k, w == "save"))

        def arg(b):
            return Src(b["s"]) if b["t"] == "src" else b["pv"] if b["raw"] else Val(b["pv"])

        def mats(ms):
            out = []
            for m in ms:
                kw = {a: arg(b) for a, b in m["args"].items()}
                if m["k"] == "to":
                    if m["comb"]:
                        kw["combine"] = joiners.setdefault(m["comb"], io_rt.joiner(m["comb"], m["cty"]))
                    deps = [getattr(mod, x) if m["byfn"] and hasattr(mod, x) else x for x in m["deps"]]
                    out.append(getattr(to, tag + m["kind"])(id=m["id"], dependencies=deps, **kw))
                else:
                    out.append(getattr(from_, tag + m["kind"])(target=m["target"], **kw))
            return out
        cfg = {sc["cfgk"]: io_rt.T1("cfg_" + sc["cfgk"])}
        e = dict(ev="built", ok=True, mats=enc_mats(sc["mats"]))
        try:
            mod = prog.make_module(prog.uid("vpio"), source(sc, tag))
            b = driver.Builder().with_modules(mod).with_config(cfg)
            if sc["dyn"]:
                b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(executors.SynchronousLocalTaskExecutor())
            else:
                b.with_adapter(base.DictResult())
            if sc["hooked"]:
                b.with_adapters(io_rt.watcher())
            if sc["mats"]:
                b.with_materializers(*mats(sc["mats"]))
            dr = b.build()
        except Exception as ex:
            e.update(ok=False, msg=f"{type(ex).__name__}: {ex}"[:200])
        ev.append(e)
        if not e["ok"]:
            return ev
        ev.append(dict(ev="names", names=sorted(v.name for v in dr.list_available_variables())))
        for s in sc["steps"]:
            ins = {x: io_rt.TYPE[sc["ty"].get(x, "T1")]("in_" + x) for x in s["ins"]}
            ovr = {x: io_rt.T1("ovr_" + x) for x in s["ovr"]}
            e = dict(ev=s["ev"], final=s["final"], mats=enc_mats(s["mats"]), ins={k: io_rt.show(v) for k, v in ins.items()},
                     ovr={k: io_rt.show(v) for k, v in ovr.items()}, ok=True, res={}, meta={})
            io_rt.CALLS.clear()
            io_rt.HOOKS.clear()
            try:
                if s["ev"] == "run":
                    r = dr.execute(list(s["final"]), inputs=ins, overrides=ovr)
                    e["res"] = {k: io_rt.show(v) for k, v in r.items()}
                elif s["ev"] == "mat":
                    m, r = dr.materialize(*mats(s["mats"]), additional_vars=list(s["final"]), inputs=ins, overrides=ovr)
                    e["res"] = {k: io_rt.show(v) for k, v in r.items()}
                    e["meta"] = {k: io_rt.show(v) for k, v in m.items()}
                else:
                    dr.validate_materialization(*mats(s["mats"]), additional_vars=list(s["final"]), inputs=ins, overrides=ovr)
            except Exception as ex:
                e.update(ok=False, err=type(ex).__name__, msg=f"{type(ex).__name__}: {ex}"[:200])
            e["hooks"] = list(io_rt.HOOKS)
            e["calls"] = list(io_rt.CALLS)
            ev.append(e)
        return ev
    finally:
        if mod is not None:
            prog.drop_module(mod)
        for reg in (registry.LOADER_REGISTRY, registry.SAVER_REGISTRY):
            for k in [k for k in reg if k.startswith(tag)]:
                del reg[k]


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):
            r = [dict(ev="hang")]
        reg = {w: {k: [dict(cls=c["cls"], types=c["types"], fields=c["fields"], req=c["req"], opt={f: io_rt.show(v) for f, v in c["optv"].items()})
                       for c in cs] for k, cs in sc["kinds"][w].items()} for w in ("load", "save")}
        decls = [dict(k=d["k"], n=d["n"], ps=d["ps"], ty=d["ty"], pty=d["pty"], dflt={p: io_rt.show(v) for p, v in d["pv"].items()},
                      loads=[dict(x, args=enc_args(x["args"])) for x in d["loads"]],
                      saves=[dict(x, args=enc_args(x["args"])) for x in d["saves"]]) for d in sc["decls"]]
        order = sorted(set(NAMES) | {"q1", "q2", "q_opt"})
        traces.append(dict(reg=reg, sub=io_rt.SUB, decls=decls, cfg={sc["cfgk"]: "cfg_" + sc["cfgk"]}, order=order, hooked=sc["hooked"], ev=r))
        metas.append(dict(i=i))
    return traces, metas
