"""Generator and recorder for with_columns (Cols.tla)."""
import logging

from vp import cols_rt, common, prog

COLS = ["a", "b", "c", "d"]
FNS = ["f", "g", "h", "k", "m", "c", "d", "o1", "total"]


def one_w(rng, j, dfname, avail, outer, ins, cfgs):
    """avail: columns of the frame it gets"""
    mode = rng.choice(["cols", "cols", "input"])
    cols = rng.sample(avail, rng.randint(1, min(3, len(avail)))) if mode == "cols" else []
    if mode == "cols" and rng.random() < .05:
        cols.append("nope")
    fns, names, ones = [], list(cols), []
    pool = [n for n in FNS if n not in cols]
    rng.shuffle(pool)
    if mode == "cols" and rng.random() < .06:
        pool.append(rng.choice(cols))       # a clash
    if mode == "input":
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([pool.pop(), rng.choice(COLS)])
            if n in names:
                continue
            if n in pool:
                pool.remove(n)
            fns.append(dict(n=n, ps=[dfname], when=[], kind="col", get="nope" if rng.random() < .04 else rng.choice(avail)))
            names.append(n)
    pair = rng.random() < .4 and cfgs
    free = [x for x in ins + outer if x not in pool and x not in names]
    for q in range(rng.choice([1, 2, 2, 3, 4])):
        n = pool.pop()
        if rng.random() < .15 and free:
            ps = rng.sample(free, rng.randint(0, min(2, len(free))))
            fns.append(dict(n=n, ps=ps + ([rng.choice(ones)] if ones and rng.random() < .5 else []), when=[], kind="one", get=""))
            ones.append(n)
            continue
        if not names:
            break

        def ps_():
            u = list(dict.fromkeys(names))
            c = rng.sample(u, rng.randint(1, min(2, len(u))))
            o = [x for x in free + ones if rng.random() < .3]
            r = list(dict.fromkeys(c + o))
            rng.shuffle(r)
            return r
        if pair and rng.random() < .5:
            for v in ("1", "2"):
                fns.append(dict(n=n, ps=ps_(), when=["k", v], kind="col", get=""))
        else:
            fns.append(dict(n=n, ps=ps_(), when=[], kind="col", get=""))
        names.append(n)
    every = rng.random() < .35
    if every and cfgs and names and rng.random() < .5:  # there under one configuration only
        n = pool.pop()
        fns.append(dict(n=n, ps=[rng.choice(names)], when=["k", rng.choice(["1", "2"])], kind="col", get=""))
    for f in fns:       # parameters with a default: given by the dataflow anyway, or left to it
        if f["get"] or not f["ps"]:
            f["dp"] = []
            continue
        if rng.random() < .15 and "opt1" not in f["ps"]:
            f["ps"].append("opt1")
        f["dp"] = [q for q in f["ps"] if q == "opt1" or rng.random() < .2]
        f["ps"] = [q for q in f["ps"] if q not in f["dp"]] + f["dp"]
    rng.shuffle(fns)
    good = [n for n in dict.fromkeys(names) if n != "nope"]
    sel = [] if every else rng.sample(good, rng.randint(1, min(3, len(good))))
    fn = f"out{j}"
    return dict(fn=fn, df=dfname, ns=rng.choice([fn, fn, f"ns{j}"]), mode=mode, cols=cols, fns=fns, all=every, sel=sel, extra=rng.sample(ins + outer, rng.choice([0, 0, 1])),
                late=mode == "input" and rng.random() < .4, how=rng.choice(["module", "functions"]), req=bool(cfgs) and rng.random() < .3)


def scenario(seed, i):
    rng = common.rng_for(seed, "cols", i)
    lib = rng.choice(["pandas", "pandas", "polars", "lazy"])
    ins = rng.sample(["s1", "s2"], rng.randint(1, 2))
    outer = []
    for n in rng.sample(["o1", "a", "f", "o2"], rng.randint(0, 3)):
        outer.append(dict(n=n, ps=rng.sample(ins + [x["n"] for x in outer], rng.randint(0, 1))))
    cfgs = [dict(k=v) for v in rng.sample(["1", "2"], 2)] if rng.random() < .55 else []
    avail = rng.sample(COLS, rng.randint(1, 4))
    on = [x["n"] for x in outer]
    ws = [one_w(rng, 1, "df", avail, on, ins, cfgs)]
    if rng.random() < .4:
        if rng.random() < .6:
            ws.append(one_w(rng, 2, "out1", list(dict.fromkeys(avail + ws[0]["sel"])), on, ins, cfgs))
        else:
            ws.append(one_w(rng, 2, "df", avail, on, ins, cfgs))
    builds = []
    for c in (cfgs or [{}]) + ([rng.choice(cfgs)] if cfgs and rng.random() < .3 else []):
        runs = []
        for _ in range(rng.choice([1, 2])):
            rows = rng.choice([0, 1, 2, 3])
            cs = list(avail)
            rng.shuffle(cs)
            if rng.random() < .15:
                cs = cs + ["zz"]
            t = rng.randrange(1000)
            df = [dict(c=x, v=[f"{x}{t}{r}" for r in range(rows)]) for x in cs]
            runs.append(dict(df=df, idx=[str(x) for x in rng.sample(["i", "j", "k", "l", "0"], rows)], ins={s: f"{s}_{t}" for s in ins}, dyn=rng.random() < .3,
                             opt=rng.random() < .3, nodes=rng.random()))
        builds.append(dict(cfg=c, runs=runs))
    return dict(lib=lib, ins=ins, outer=outer, ws=ws, builds=builds, seed=rng.randrange(1 << 30))


TY = dict(pandas=("pd.DataFrame", "pd.Series", "h_pandas"), polars=("pl.DataFrame", "pl.Series", "h_polars"), lazy=("pl.LazyFrame", "pl.Expr", "h_polars_lazyframe"))
HEAD = "import pandas as pd\nimport polars as pl\nfrom hamilton.function_modifiers import config\nfrom vp import cols_rt as _rt\n"


def lib_source(sc, w):
    fty, cty, _ = TY[sc["lib"]]
    colnames = set(w["cols"]) | {f["n"] for f in w["fns"] if f["kind"] == "col"}
    s, names = HEAD, []
    for q, f in enumerate(w["fns"]):
        n = f["n"] + (f"__v{q}" if f["when"] else "")
        names.append(n)
        if f["when"]:
            s += f"@config.when({f['when'][0]}={f['when'][1]!r})\n"
        ty = lambda p: fty if p == w["df"] else cty if p in colnames else "str"  # noqa
        s += f"def {n}({', '.join(p + ': ' + ty(p) + (" = 'dflt'" if p in f.get('dp', ()) else '') for p in f['ps'])}) -> {cty if f['kind'] == 'col' else 'str'}:\n"
        if f["get"]:
            s += f"    return _rt.get({f['n']!r}, {w['df']}, {f['get']!r})\n"
        else:
            s += f"    return _rt.{f['kind']}({f['n']!r}, [{', '.join(f['ps'])}])\n"
    return s, names


def main_source(sc, mods):
    fty, cty, h = TY[sc["lib"]]
    s = HEAD + f"from hamilton.plugins.{h} import with_columns\n" + "".join(f"import {m.__name__} as L{i}\n" for i, (m, _) in enumerate(mods))
    for o in sc["outer"]:
        s += f"def {o['n']}({', '.join(p + ': str' for p in o['ps'])}) -> str:\n    return {o['n'] + '('!r} + ','.join([{', '.join(o['ps'])}]) + ')'\n"
    for i, w in enumerate(sc["ws"]):
        a = [f"L{i}"] if w["how"] == "module" else [f"L{i}.{n}" for n in mods[i][1]]
        if w["mode"] == "cols":
            a.append(f"columns_to_pass={w['cols']!r}")
        else:
            a.append(f"on_input={w['df']!r}")
        if not w["all"]:
            a.append(f"select={w['sel']!r}")
        if w["ns"] != w["fn"]:
            a.append(f"namespace={w['ns']!r}")
        if w["req"]:
            a.append("config_required=['k']")
        ps = [f"{w['df']}: {fty}"]
        ps = [f"{x}: str" for x in w["extra"]] + ps if w["late"] else ps + [f"{x}: str" for x in w["extra"]]
        s += f"@with_columns({', '.join(a)})\ndef {w['fn']}({', '.join(ps)}) -> {fty}:\n    return _rt.final({w['fn']!r}, {w['df']}, [{', '.join(w['extra'])}])\n"
    return s


def active(w, cfg):
    return [f for f in w["fns"] if not f["when"] or cfg.get(f["when"][0]) == f["when"][1]]


def execute(sc):
    logging.disable(logging.CRITICAL)
    import random
    from hamilton import base, driver
    from hamilton.execution import executors
    rng = random.Random(sc["seed"])
    mods, out, main = [], [], None
    try:
        for w in sc["ws"]:
            src, names = lib_source(sc, w)
            mods.append((prog.make_module(prog.uid("vpcl"), src), names))
        try:
            main = prog.make_module(prog.uid("vpcm"), main_source(sc, mods))
        except Exception as ex:
            return [dict(ev="build", cfg=sc["builds"][0]["cfg"], ok=False, err=str(ex)[:200])]
        for b in sc["builds"]:
            e = dict(ev="build", cfg=b["cfg"], ok=True)
            out.append(e)
            drs = {}
            try:
                for dyn in {r["dyn"] for r in b["runs"]}:
                    bb = driver.Builder().with_modules(main).with_config(dict(b["cfg"]))
                    if dyn:
                        bb.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(executors.SynchronousLocalTaskExecutor())
                    drs[dyn] = bb.with_adapters(base.DictResult()).build()
            except Exception as ex:
                e.update(ok=False, err=f"{type(ex).__name__} {ex}"[:300])
                continue
            for r in b["runs"]:
                want = [dict(k="frame", w=w["fn"], n="") for w in sc["ws"] if rng.random() < .8] or [dict(k="frame", w="out1", n="")]
                if r["nodes"] < .4:
                    w = rng.choice(sc["ws"])
                    A = active(w, b["cfg"])
                    if w["all"]:
                        cand = [f["n"] for f in A] + w["cols"]
                    else:
                        cand = list(w["sel"])
                    want.append(dict(k="node", w=w["fn"], n=rng.choice(sorted(set(cand)))))
                    if rng.random() < .4:
                        want = want[-1:]
                df = cols_rt.mk(sc["lib"], r["df"], r["idx"])
                cols_rt.CALLS.clear()
                cols_rt.FINALS.clear()
                e = dict(ev="run", cfg=b["cfg"], df=r["df"], idx=r["idx"], ins=dict(r["ins"], opt1="given" if r["opt"] else "dflt"), want=want, ok=True, res=[], err="")
                try:
                    ns = {w["fn"]: w["ns"] for w in sc["ws"]}
                    keys = [x["w"] if x["k"] == "frame" else f"{ns[x['w']]}.{x['n']}" for x in want]
                    res = drs[r["dyn"]].execute(list(dict.fromkeys(keys)), inputs=dict(r["ins"], df=df, **({"opt1": "given"} if r["opt"] else {})))
                    for x, k in zip(want, keys):
                        v = res[k]
                        if x["k"] == "frame":
                            f, i = cols_rt.rd(sc["lib"], v, r["idx"])
                            e["res"].append(dict(f=f, idx=i))
                        elif isinstance(v, str):
                            e["res"].append(dict(k="one", v=v))
                        else:
                            e["res"].append(dict(k="col", v=[] if sc["lib"] == "lazy" else [str(y) for y in v]))
                except Exception as ex:
                    e.update(ok=False, err=f"{type(ex).__name__} {ex}"[-300:])
                e["after"] = cols_rt.rd(sc["lib"], df, r["idx"])[0]
                e["calls"] = list(cols_rt.CALLS)
                e["finals"] = list(cols_rt.FINALS)
                out.append(e)
        return out
    finally:
        for m, _ in mods:
            prog.drop_module(m)
        if main:
            prog.drop_module(main)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(lib=sc["lib"], outer=sc["outer"], ws=sc["ws"], ev=[dict(ev="hang", why=str(r)[:300])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, lib=sc["lib"]))
    return traces, metas


def debug(sc):
    ms = [(type("M", (), dict(__name__=f"lib{i}")), lib_source(sc, w)[1]) for i, w in enumerate(sc["ws"])]
    return "\n#---\n".join(lib_source(sc, w)[0][len(HEAD):] for w in sc["ws"]) + "\n#---main\n" + main_source(sc, ms)[len(HEAD):]
