"""Generator and recorder for result builders (Results.tla)."""
import logging

from vp import common, prog

NAMES = ["a", "b", "c", "spend", "f1.u", "z"]
ITYPES = ["str", "int", "range", "date", "cat", "float"]
VALUES = {}


def labels(rng, it, k, pool=5):
    if it == "range":
        return [f"i:{j}" for j in range(k)]
    p = {"str": [f"s:{x}" for x in "pqrst"], "int": [f"i:{x}" for x in (0, 1, 2, 7, 9)], "date": [f"d:2020-01-0{x}" for x in range(1, 6)], "cat": [f"s:{x}" for x in "pqrst"],
         "float": [f"f:{x}" for x in (0.5, 1.5, 2.5, 3.5, 4.5)]}[it]
    return rng.sample(p, k)


def value(rng, n, b, ctx):
    r = rng.random()
    if b == "numpy":
        return dict(k="one", t=repr(float(rng.randint(0, 9)))) if r < .35 else dict(k="arr", v=[repr(float(rng.randint(0, 99))) for _ in range(ctx["len"] if rng.random() < .92 else rng.randint(0, 4))], how=rng.choice(["list", "np", "tuple"]))
    if b in ("polars", "lazy"):
        return dict(k="arr", v=[f"{n}{i}" for i in range(ctx["len"] if rng.random() < .93 else rng.randint(0, 4))], how=rng.choice(["pl", "list"]) if b == "lazy" else "pl")
    if r < ctx["p1"]:
        return dict(k="one", t=f"{n}_v")
    if r < ctx["p1"] + ctx["pa"]:
        return dict(k="arr", v=[f"{n}{i}" for i in range(ctx["len"] if rng.random() < .9 else rng.randint(0, 4))], how=rng.choice(["list", "np"]))
    it = ctx["it"] if rng.random() < .9 else rng.choice(ITYPES)
    if ctx["idx"] is not None and it == ctx["it"] and rng.random() < ctx["same"]:
        idx = list(ctx["idx"])
    else:
        k = rng.randint(0, 4)
        idx = labels(rng, it, k)
        if rng.random() < .04 and idx and it != "range":
            idx.append(idx[0])
        if ctx["idx"] is None:
            ctx["idx"], ctx["it"] = idx, it
            ctx["len"] = len(idx)
    if rng.random() < ctx["pf"]:
        return dict(k="frm", it=it, idx=idx, cols=[dict(c=c, v=[f"{n}{c}{i}" for i in range(len(idx))]) for c in rng.sample(["u", "w", "a"], rng.choice([1, 1, 2, 2, 3]))])
    return dict(k="ser", it=it, idx=idx, v=[f"{n}{i}" for i in range(len(idx))])


def holes(rng, v, row, p):
    """some cells (or a whole row) hold nothing"""
    if v["k"] == "one":
        return dict(v, t="~") if rng.random() < p / 2 else v
    put = lambda xs: ["~" if (j == row or rng.random() < p) else x for j, x in enumerate(xs)]
    if v["k"] == "frm":
        return dict(v, cols=[dict(c, v=put(c["v"])) for c in v["cols"]])
    return dict(v, v=put(v["v"]))


def scenario(seed, i):
    rng = common.rng_for(seed, "res", i)
    b = rng.choice(["dict", "pandas", "pandas", "pandas", "strict", "strict", "numpy", "polars", "lazy"])
    ctx = dict(p1=rng.choice([.1, .25, 1, 0]), pa=rng.choice([0, 0, .2]), pf=rng.choice([0, 0, .25, .6]), it=rng.choice(ITYPES), idx=None, same=rng.choice([.2, .6, 1]), len=rng.choice([0, 1, 2, 3]))
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4, 5])) + (["f1"] if rng.random() < .35 else [])
    vals = []
    for n in names:
        c = dict(ctx, p1=0, pa=0, pf=1) if n == "f1" and b in ("pandas", "strict", "dict") else ctx
        vals.append(dict(n=n, v=value(rng, n, b, c)))
        if ctx["idx"] is None and c["idx"] is not None:
            ctx.update(idx=c["idx"], it=c["it"], len=c["len"])
    if b in ("polars", "lazy") and rng.random() < .3:
        n = rng.choice(names)
        w = dict(k="frm", it="", idx=[], cols=[dict(c=c, v=[f"{n}{c}{i}" for i in range(2)]) for c in rng.sample(["u", "w", "a"], rng.randint(1, 3))], how="lazy" if b == "lazy" or rng.random() < .4 else "pl")
        if b == "polars" and rng.random() < .4:
            w = dict(k="one", t=f"{n}_v")
        vals = [dict(n=n, v=w)]
        names = [n]
    if b != "numpy" and rng.random() < .4:
        row, p = rng.choice([-1, 0, 1]), rng.choice([0, .1, .4])
        vals = [dict(n=v["n"], v=holes(rng, v["v"], row, p)) for v in vals]
    runs = []
    for _ in range(rng.choice([1, 2, 3])):
        want = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < .08:
            want.append(rng.choice(want))
        runs.append(dict(want=want, ovr=[n for n in names if rng.random() < .15], eng=rng.choice(["builder", "builder", "legacy", "legacyb", "dyn", "async", "dask", "dasklazy"])))
    return dict(b=b, vals=vals, runs=runs, ins=[n for n in names if "." not in n and rng.random() < .2])


def lab(x):
    import pandas as pd
    k, _, t = x.partition(":")
    return {"s": str, "i": int, "f": float, "d": pd.Timestamp}[k](t)


def un(xs):
    return [None if x == "~" else x for x in xs]


def mk(v):
    import numpy as np
    import pandas as pd

    def index(v):
        ls = [lab(x) for x in v["idx"]]
        it = v["it"]
        if it == "range":
            return pd.RangeIndex(len(ls))
        if it == "date":
            return pd.DatetimeIndex(ls)
        if it == "cat":
            return pd.CategoricalIndex(ls, categories=["p", "q", "r", "s", "t"])
        return pd.Index(ls, dtype={"str": object, "int": "int64", "float": "float64"}[it])
    if v["k"] == "one":
        return None if v["t"] == "~" else float(v["t"]) if v["t"][0].isdigit() else v["t"]
    if v["k"] == "arr":
        num = bool(v["v"]) and v["v"][0][0].isdigit()
        xs = [float(x) for x in v["v"]] if num else un(v["v"])
        if v["how"] == "np":
            return np.array(xs, dtype=float if num else object)
        if v["how"] == "pl":
            import polars as pl
            return pl.Series(xs, dtype=pl.Utf8)
        return tuple(xs) if v["how"] == "tuple" else xs
    if v["k"] == "ser":
        return pd.Series(un(v["v"]), index=index(v), dtype=object)
    if v.get("how"):
        import polars as pl
        d = pl.DataFrame({c["c"]: pl.Series(un(c["v"]), dtype=pl.Utf8) for c in v["cols"]})
        return d.lazy() if v["how"] == "lazy" else d
    return pd.DataFrame({c["c"]: pd.Series(un(c["v"]), index=index(v), dtype=object) for c in v["cols"]}, columns=[c["c"] for c in v["cols"]]) if not _dup(v["idx"]) else \
        pd.DataFrame({c["c"]: un(c["v"]) for c in v["cols"]}, index=index(v), dtype=object)


def _dup(s):
    return len(set(s)) != len(s)


def tell(x):
    import pandas as pd
    if isinstance(x, pd.Timestamp):
        return f"d:{x.date()}"
    if isinstance(x, str):
        return f"s:{x}"
    if isinstance(x, float):
        return f"f:{x}" if x != int(x) else f"i:{int(x)}"
    return f"i:{int(x)}"


def text(x):
    return "~" if x is None or x != x else str(x)


def source(sc):
    s = "from typing import Any\nfrom hamilton.function_modifiers import parameterize, value\nfrom vp import res as _r\n"
    for v in sc["vals"]:
        n = v["n"]
        if n in sc["ins"]:
            continue
        if "." in n:
            s += f"@parameterize(**{{{n!r}: dict(k=value({n!r}))}})\ndef _made(k: str) -> Any:\n    return _r.VALUES[k]\n\n".replace("_made", "made_" + n.replace(".", "_"))
        else:
            s += f"def {n}() -> Any:\n    return _r.VALUES[{n!r}]\n\n"
    return s + "def anchor(" + ", ".join(f"{n}: Any" for n in sc["ins"]) + ") -> int:\n    return 1\n"


def execute(sc):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    import asyncio
    import numpy as np
    import pandas as pd
    import polars as pl
    from hamilton import async_driver, base, driver
    from hamilton.execution import executors
    from hamilton.plugins import h_dask, h_polars, h_polars_lazyframe
    b = sc["b"]
    mkb = dict(dict=base.DictResult, pandas=base.PandasDataFrameResult, strict=base.StrictIndexTypePandasDataFrameResult, numpy=base.NumpyMatrixResult,
               polars=h_polars.PolarsDataFrameResult, lazy=h_polars_lazyframe.PolarsLazyFrameResult)[b]
    mod = prog.make_module(prog.uid("vpre"), source(sc))
    out = []
    try:
        VALUES.clear()
        VALUES.update({v["n"]: mk(v["v"]) for v in sc["vals"]})
        for r in sc["runs"]:
            e = dict(ev="run", b=b, eng=r["eng"], want=r["want"], ok=True, err="", type=True)
            ins = {n: VALUES[n] for n in sc["ins"]}
            ovr = {n: VALUES[n] for n in r["ovr"] if n not in sc["ins"]}
            try:
                if r["eng"] == "async":
                    async def go():
                        dr = await async_driver.Builder().with_modules(mod).with_adapters(mkb()).build()
                        return await dr.execute(list(r["want"]), inputs=ins, overrides=ovr)
                    res = asyncio.run(go())
                else:
                    if r["eng"] == "builder":
                        dr = driver.Builder().with_modules(mod).with_adapters(mkb()).build()
                    elif r["eng"] == "dyn":
                        dr = driver.Builder().with_modules(mod).enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(
                            executors.SynchronousLocalTaskExecutor()).with_adapters(mkb()).build()
                    elif r["eng"] == "legacy":
                        dr = driver.Driver({}, mod, adapter=None if b == "pandas" else base.SimplePythonGraphAdapter(mkb()))
                    elif r["eng"] == "legacyb":
                        dr = driver.Builder().with_modules(mod).build() if b == "dict" else driver.Builder().with_modules(mod).with_adapter(base.SimplePythonGraphAdapter(mkb())).build()
                    else:
                        dr = driver.Driver({}, mod, adapter=h_dask.DaskGraphAdapter(None, mkb(), use_delayed=True, compute_at_end=r["eng"] == "dask"))
                    import dask
                    with dask.config.set(scheduler="sync"):
                        res = dr.execute(list(r["want"]), inputs=ins, overrides=ovr)
                        if r["eng"] == "dasklazy":
                            res = res.compute()
                if b == "dict":
                    e["keys"] = list(res)
                    e["same"] = isinstance(res, dict) and all(res[k] is VALUES[k] or ("dask" in r["eng"] and same(res[k], VALUES[k])) for k in res if k in VALUES)
                elif b in ("pandas", "strict"):
                    e["type"] = isinstance(res, pd.DataFrame)
                    allp = all(v["v"]["k"] in ("one", "arr") for v in sc["vals"] if v["n"] in r["want"])
                    e["res"] = dict(cols=[str(c) for c in res.columns], idx=[tell(x) for x in res.index], v=[[text(x) for x in res.iloc[:, j]] for j in range(len(res.columns))])
                elif b == "numpy":
                    e["type"] = isinstance(res, np.matrix)
                    e["res"] = [[repr(float(x)) for x in row] for row in np.asarray(res)]
                else:
                    e["type"] = isinstance(res, pl.DataFrame if b == "polars" else pl.LazyFrame)
                    res = res.collect() if b == "lazy" else res
                    e["res"] = dict(cols=list(res.columns), v=[[text(x) for x in res[c]] for c in res.columns])
            except Exception as ex:
                e.update(ok=False, err=f"{type(ex).__name__} {ex}"[:200])
            out.append(e)
        return out
    finally:
        prog.drop_module(mod)


def same(a, b):
    import numpy as np
    import pandas as pd
    if isinstance(b, (pd.Series, pd.DataFrame)):
        return type(a) is type(b) and a.equals(b)
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and list(a) == list(b)
    return type(a) is type(b) and a == b


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(vals=sc["vals"], ev=[dict(ev="hang", why=str(r)[:300])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, b=sc["b"]))
    return traces, metas


def debug(sc):
    import json
    return json.dumps(sc["vals"])
