"""Scenarios for data quality checks (C12)."""
import asyncio
import logging
import random
import re

from vp import common, dq_rt, prog

PRIM = ["int", "float", "bool", "str"]
ARGS = {"series": ["allow_nans", "range", "values_in", "data_type", "max_fraction_nans", "max_standard_dev", "mean_in_range", "allow_none", "schema"],
        "int": ["range", "values_in", "data_type", "allow_none"], "float": ["range", "values_in", "data_type", "allow_none"],
        "bool": ["range", "values_in", "data_type", "allow_none"], "str": ["values_in", "data_type", "contains", "does_not_contain", "allow_none"],
        "frame": ["schema", "schema", "allow_none"], "dict": ["allow_none"], "list": ["allow_none"]}
ALLARGS = sorted({a for v in ARGS.values() for a in v})
SDT = ["float64", "floating", "number", "generic", "int64", "integer", "signedinteger", "object_", "bool_", "float32", "int32"]


def num(n, py="float"):
    return dict(k="num", n=n, py=py)


def gen_num(rng, ty):
    if ty == "bool":
        return num(4 * rng.randint(0, 1), "bool")
    if ty == "int":
        return num(4 * rng.randint(-3, 5), "int")
    r = rng.random()
    if r < .1:
        return dict(k="nan")
    if r < .15:
        return dict(k="inf", s=rng.choice([-1, 1]))
    return num(rng.randint(-12, 20))


def gen_str(rng, n=5):
    return dict(k="str", s=[rng.choice("abc") for _ in range(rng.randint(0, n))])


def gen_series(rng):
    kind = rng.choice(["f", "f", "f", "i", "s", "b"])
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
    if kind == "f":
        if rng.random() < .2:
            v = num(rng.randint(-6, 6))
            xs = [v] * n
        else:
            xs = [num(rng.randint(-8, 8) * rng.choice([1, 4])) for _ in range(n)]
        xs = [dict(k="nan") if rng.random() < .2 else x for x in xs]
        return dict(k="series", dt=rng.choice(["float64", "float64", "float64", "float32"]), xs=xs)
    if kind == "i":
        return dict(k="series", dt=rng.choice(["int64", "int32"]), xs=[num(4 * rng.randint(-3, 4), "int") for _ in range(n)])
    if kind == "b":
        return dict(k="series", dt="bool", xs=[num(4 * rng.randint(0, 1), "bool") for _ in range(n)])
    return dict(k="series", dt="object", xs=[dict(k="none") if rng.random() < .2 else gen_str(rng, 1) for _ in range(n)])


def gen_frame(rng):
    n = rng.choice([0, 1, 2, 3])
    cols = []
    for c in rng.sample(["u", "v", "w"], rng.randint(1, 3)):
        if rng.random() < .5:
            cols.append(dict(n=c, dt="int64", xs=[num(4 * rng.randint(-3, 4), "int") for _ in range(n)]))
        else:
            whole = rng.random() < .5
            cols.append(dict(n=c, dt="float64", xs=[dict(k="nan") if rng.random() < .15 else num(rng.randint(-3, 4) * 4 if whole else rng.randint(-9, 9)) for _ in range(n)]))
    return dict(k="frame", cols=cols)


def gen_col(rng, n, col):
    ns = [x["n"] for x in col["xs"] if x["k"] == "num"] if col else []
    lo, hi = (min(ns) + rng.choice([-1, 0, 0, 1]), max(ns) + rng.choice([-1, 0, 0, 1])) if ns and rng.random() < .8 else (-40, 40)
    dt = col["dt"] if col and rng.random() < .7 else rng.choice(["int64", "float64"])
    return dict(n=n, dt=dt, lo=num(lo), hi=num(max(lo, hi)), nullable=rng.random() < .5, coerce=rng.random() < .4 and dt == "float64")  # whole numbers are pandas' business


def gen_val(rng, ty):
    r = rng.random()
    if ty == "frame":
        return dict(k="none") if r < .04 else gen_frame(rng)
    if ty == "series":
        return dict(k="none") if r < .03 else gen_series(rng)
    if ty == "str":
        return dict(k="none") if r < .05 else gen_str(rng)
    if ty == "list":
        return dict(k="none") if r < .3 else dict(k="list")
    if ty == "dict":
        return dict(k="none") if r < .3 else dict(k="dict", f={})
    if r < .06:
        return dict(k="none")
    if r < .12:
        return gen_num(rng, rng.choice(["int", "float", "bool"]))
    return gen_num(rng, ty)


def elems(v):
    return v["xs"] if v["k"] == "series" else [v]


def gen_check(rng, a, ty, vals):
    """a check about a node of type ty that has one of the values: often right at the border"""
    c = dict(a=a, nm=a + "_validator", av=True)
    xs = [x for v in vals for x in elems(v)]
    ns = [x["n"] for x in xs if x["k"] == "num"]
    if a in ("range", "mean_in_range"):
        if a == "mean_in_range" and ns and rng.random() < .5:
            m = sum(ns) // len(ns)
            lo, hi = m - rng.choice([0, 0, 1, 3]), m + rng.choice([0, 0, 1, 3])
        elif ns and rng.random() < .8:
            lo, hi = min(ns) + rng.choice([-2, 0, 0, 0, 1]), max(ns) + rng.choice([-1, 0, 0, 0, 2])
        else:
            lo, hi = sorted([rng.randint(-10, 10), rng.randint(-10, 10)])
        c.update(lo=num(lo), hi=num(hi))
        if rng.random() < .1:
            c["hi"] = dict(k="inf", s=1)
        if rng.random() < .05:
            c["lo"] = dict(k="inf", s=-1)
    elif a == "values_in":
        pool = [x for x in xs if x["k"] in ("num", "str")]
        vs = [x for x in pool if rng.random() < .85]
        extra = gen_str(rng, 1) if (ty == "str" or any(x["k"] == "str" for x in xs)) else gen_num(rng, "int")
        c["vals"] = vs + ([extra] if rng.random() < .5 or not vs else [])
        c["as"] = rng.choice(["list", "tuple", "set"])
    elif a == "data_type":
        c["dt"] = rng.choice(SDT) if ty == "series" else rng.choice(["int", "float", "bool", "str", "object"])
        if ty == "series" and vals[0]["k"] == "series" and rng.random() < .5:
            c["dt"] = dict(object="object_", bool="bool_").get(vals[0]["dt"], vals[0]["dt"])
    elif a == "max_fraction_nans":
        den = rng.choice([4, 10, 3, 5, 100])
        k = rng.randint(0, den)
        s = rng.choice(vals)
        if s["k"] == "series" and s["xs"] and rng.random() < .6:
            den, k = len(s["xs"]), sum(x["k"] in ("nan", "none") for x in s["xs"])
            if rng.random() < .2 and k:
                k -= 1
        if rng.random() < .05:
            k = rng.choice([-1, den + 1])
        c.update(num=k, den=den)
    elif a == "schema":
        c["nm"] = "pandera_schema_validator"
        c["strict"] = rng.choice(["", "", "strict", "filter"]) if ty == "frame" else ""
        v = vals[0]
        if ty == "frame":
            have = {x["n"]: x for x in v["cols"]} if v["k"] == "frame" else {}
            names = rng.sample(sorted(have), rng.randint(0, len(have))) + ([rng.choice("uvw")] if rng.random() < .15 else [])
            c["cols"] = [gen_col(rng, n, have.get(n)) for n in sorted(set(names))]
        else:
            c["cols"] = [dict(gen_col(rng, "", v if v["k"] == "series" else None), coerce=False)]
    elif a == "allow_nans":
        c.update(b=rng.random() < .06, num=0, den=1)
    elif a == "allow_none":
        c["b"] = rng.random() < .3
    elif a == "max_standard_dev":
        c["m"] = rng.choice([0, 0, 1, 2, 3, 4, 8, 12, 30])
    elif a in ("contains", "does_not_contain"):
        def sub():
            s = rng.choice(vals)
            if s["k"] == "str" and s["s"] and rng.random() < .5:
                i = rng.randrange(len(s["s"]))
                return s["s"][i:i + rng.randint(1, 3)]
            return gen_str(rng, 2)["s"]
        c["subs"] = [sub() for _ in range(rng.choice([1, 1, 2, 3, 0]))]
        c["one"] = len(c["subs"]) == 1 and rng.random() < .6
    return c


def gen_layer(rng, tys, cand, tvals):
    """a check layer for nodes with types tys (name -> type); cand: names it will be applied to"""
    if rng.random() < .35:
        cs = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            ns = [x["n"] for n in cand for x in elems(tvals[n]) if x["k"] == "num"] or [0]
            cs.append(dict(a="custom", nm=rng.choice(["va", "vb", "vc"]), av=True, imp=rng.choice(["warn", "fail", "warn"]), p=rng.choice(["le", "le", "le", "yes", "yes", "no", "boom" if rng.random() < .3 else "le"]),
                           t=num(rng.choice(ns) - rng.choice([0, 0, 0, 1]))))
        return dict(k="check", form="custom", cs=cs)
    imp = rng.choice(["warn", "warn", "fail", "fail", "default"])
    ok = set(ALLARGS)
    for n in cand:
        ok &= set(ARGS[tys[n]])
    args = [a for a in sorted(ok) if not (a in ("range", "mean_in_range", "max_standard_dev") and any(x["k"] in ("str",) for n in cand for x in elems(tvals[n])))]
    # pandas' own refusals of odd arithmetic (means of objects, comparisons of strings with numbers) are not the point here
    if any(tvals[n]["k"] == "series" and tvals[n]["dt"] in ("object", "bool") for n in cand):
        args = [a for a in args if a not in ("mean_in_range", "max_standard_dev", "range")]
    if any(tvals[n]["k"] == "series" and tvals[n]["dt"] not in ("float64", "int64") for n in cand) or len({tys[n] for n in cand}) > 1:
        args = [a for a in args if a != "schema"]
    if any(tvals[n]["k"] == "series" and tvals[n]["dt"] == "bool" for n in cand):
        args = [a for a in args if a != "values_in"]
    rng.shuffle(args)
    args = args[:rng.choice([1, 1, 2, 2, 3, 5])]
    if rng.random() < .06:
        bad = [a for a in ALLARGS if a not in ok]
        if bad:
            args.append(rng.choice(bad))
    cs = []
    for a in args:
        c = gen_check(rng, a, tys[cand[0]], [tvals[n] for n in cand])
        c["imp"] = "warn" if imp == "default" else imp
        cs.append(c)
    L = dict(k="check", form="default", imp=imp, cs=cs, cand=None)
    if rng.random() < .08:
        L["cand"] = [a for a in ALLARGS if rng.random() < .9]
        for c in cs:
            c["av"] = c["a"] in L["cand"]
    return L


def target(rng, L, nodes, last, want):
    """choose target_ so that it hits `want` (a set of names)"""
    if set(want) == set(last) and rng.random() < .7:
        L.update(tk="none", tl=[])
    elif set(want) == set(nodes) and rng.random() < .6:
        L.update(tk="all", tl=[])
    else:
        L.update(tk="list", tl=sorted(want))
        if rng.random() < .04:
            L["tl"] = sorted(want) + ["nowhere"]
    L["tstr"] = L["tk"] == "list" and len(L["tl"]) == 1 and rng.random() < .6
    return L


def scenario(seed, i):
    rng = common.rng_for(seed, "dq", i)
    if rng.random() < .12:
        return par_scenario(rng)
    mode = rng.choice(["mem", "mem", "mem", "dyn", "dyn", "async"])
    fns, known, tyof, vals = [], [], {}, {}
    for j in range(rng.randint(1, 4)):
        n = f"f{j}"
        kind = rng.choice(["plain", "plain", "plain", "fields", "param"])
        ps = rng.sample(known, min(len(known), rng.choice([0, 1, 1, 2])))
        ty = rng.choice(["series", "series", "series"] + PRIM + ["int", "float", "str", "list", "frame", "frame"])
        tys, layers, fs, mine = {}, [], [], {}
        if kind == "plain":
            tys[n] = ty
            mine[n] = gen_val(rng, ty)
            if rng.random() < .8:
                layers.append(target(rng, gen_layer(rng, tys, [n], mine), [n], [n], [n]))
        elif kind == "param":
            fs = [n + "p", n + "q"]
            tys = {x: ty for x in fs}
            mine = {x: gen_val(rng, ty) for x in fs}
            want = rng.choice([fs, fs, fs[:1]])
            if rng.random() < .85:
                layers.append(target(rng, gen_layer(rng, tys, want, mine), fs, fs, want))
        else:
            fs = [n + "p", n + "q"]
            ta = rng.choice(PRIM + ["series"])
            tys = {fs[0]: ta, fs[1]: ta if rng.random() < .6 else rng.choice(PRIM)}
            for x in fs:
                mine[x] = gen_val(rng, tys[x])
            tys[n] = "dict"
            mine[n] = dict(k="dict", f={x: mine[x] for x in fs})
            inner = rng.random() < .4
            if inner:
                layers.append(target(rng, gen_layer(rng, tys, [n], mine), [n], [n], [n]))
            layers.append(dict(k="extract"))
            if rng.random() < .8:
                want = rng.choice([fs, fs, fs[:1], fs[1:]] + ([] if inner else [[n], [n] + fs]))
                layers.append(target(rng, gen_layer(rng, tys, want, mine), [n] + fs if not inner else None or ["?"], fs, want))
        fns.append(dict(n=n, kind=kind, ty=ty if kind != "fields" else "dict", ps=ps, tys=tys, fs=fs, layers=layers, decoy=kind == "plain" and rng.random() < .15))
        tyof.update(tys)
        vals.update(mine)
        for x in tys:
            known.append(x)
        for L in layers:
            if L["k"] == "check" and L["tk"] == "list":
                for x in L["tl"]:
                    if x in tys and rng.random() < .3:
                        known.append(x + "_raw")
                        tyof[x + "_raw"] = tys[x]
    if mode == "async" and any(f["kind"] != "plain" for f in fns):
        mode = "dyn"
    return dict(mode=mode, fns=fns, vals=vals, tyof=tyof, sseed=rng.random(), par=None)


def par_scenario(rng):
    ty = rng.choice(PRIM + ["series"])
    items = [gen_val(rng, ty) for _ in range(rng.randint(0, 5))]
    proto = {"x": rng.choice(items) if items else gen_val(rng, ty)}
    if ty == "series":
        items = [v for v in items if v["k"] != "series" or proto["x"]["k"] != "series" or v["dt"] == proto["x"]["dt"]]
    L = target(rng, gen_layer(rng, {"x": ty}, ["x"], proto), ["x"], ["x"], ["x"])
    fns = [dict(n="x", kind="plain", ty=ty, ps=[], tys={"x": ty}, fs=[], layers=[L], decoy=False)]
    return dict(mode=rng.choice(["sync", "threads"]), fns=fns, vals=proto, tyof={"x": ty}, sseed=rng.random(), par=dict(n="x", items=items))


# ---------------------------------------------------------------- python side
ANN = {"frame": "pd.DataFrame", "int": "int", "float": "float", "bool": "bool", "str": "str", "series": "pd.Series", "dict": "dict", "list": "typing.List[int]", "vr": "typing.Any"}


def py(v):
    import numpy as np
    import pandas as pd
    k = v["k"]
    if k == "num":
        x = v["n"] / 4
        return int(x) if v["py"] == "int" else bool(x) if v["py"] == "bool" else x
    if k == "nan":
        return float("nan")
    if k == "inf":
        return v["s"] * float("inf")
    if k == "str":
        return "".join(v["s"])
    if k == "none":
        return None
    if k == "list":
        return [1, 2]
    if k == "series":
        return pd.Series([py(x) for x in v["xs"]], dtype=np.dtype(v["dt"]))
    if k == "frame":
        return pd.DataFrame({c["n"]: pd.Series([py(x) for x in c["xs"]], dtype=np.dtype(c["dt"])) for c in v["cols"]})
    if k == "vr":
        from hamilton.data_quality import base as dq
        return dq.ValidationResult(passes=v["p"] == "yes", message="overridden")
    raise ValueError(k)


def lit(v):
    x = py(v)
    return f"float({str(x)!r})" if v["k"] in ("nan", "inf") else repr(x)


def dec_source(L, n):
    if L["k"] == "extract":
        return None
    tgt = "" if L["tk"] == "none" else "target_=..." if L["tk"] == "all" else f"target_={L['tl'][0]!r}" if L["tstr"] else f"target_={L['tl']!r}"
    if L["form"] == "custom":
        a = [f"_rt.custom({c['nm']!r}, {c['imp']!r}, {c['p']!r}, {lit(c['t'])})" for c in L["cs"]]
        return f"@check_output_custom({', '.join(a + ([tgt] if tgt else []))})"
    a = [] if L["imp"] == "default" else [f"importance={L['imp']!r}"]
    for c in L["cs"]:
        k = c["a"]
        if k in ("range", "mean_in_range"):
            s = f"({lit(c['lo'])}, {lit(c['hi'])})"
        elif k == "values_in":
            s = f"{c['as']}([{', '.join(lit(x) for x in c['vals'])}])"
        elif k == "data_type":
            s = c["dt"] if c["dt"] in ("int", "float", "bool", "str", "object") else "np." + c["dt"]
        elif k == "max_fraction_nans":
            s = f"{c['num']} / {c['den']}"
        elif k in ("allow_nans", "allow_none"):
            s = repr(c["b"])
        elif k == "schema":
            def col(x):
                return f"{x['dt']!r}, checks=_pa.Check.in_range({lit(x['lo'])}, {lit(x['hi'])}), nullable={x['nullable']}, coerce={x['coerce']}"
            if c["cols"] and c["cols"][0]["n"] == "":
                s = f"_pa.SeriesSchema({col(c['cols'][0])})"
            else:
                s = "_pa.DataFrameSchema({" + ", ".join(f"{x['n']!r}: _pa.Column({col(x)})" for x in c["cols"]) + "}, strict=" + {"": "False", "strict": "True", "filter": "'filter'"}[c["strict"]] + ")"
        elif k == "max_standard_dev":
            s = repr(c["m"] / 4)
        else:
            ss = ["".join(x) for x in c["subs"]]
            s = repr(ss[0]) if c["one"] else repr(ss)
        a.append(f"{k}={s}")
    if L["cand"] is not None:
        a.append(f"default_validator_candidates=[c for c in _dv.AVAILABLE_DEFAULT_VALIDATORS if c.arg() in {L['cand']!r}]")
    if tgt:
        a.append(tgt)
    return f"@check_output({', '.join(a)})"


def source(sc):
    out = ["import typing, numpy as np, pandas as pd", "import pandera as _pa", "from vp import dq_rt as _rt", "from hamilton.data_quality import default_validators as _dv",
           "from hamilton.htypes import Parallelizable, Collect",
           "from hamilton.function_modifiers import check_output, check_output_custom, extract_fields, parameterize, value, config", ""]
    if sc["par"]:
        ty = ANN[sc["fns"][0]["ty"]]
        out += [f"def it() -> Parallelizable[{ty}]:", f"    for i in range({len(sc['par']['items'])}):", "        yield _rt.OBJ['i:' + str(i + 1)]", ""]
    for f in sc["fns"]:
        ann = lambda p: ANN.get(sc["tyof"].get(p, "vr"))
        ps = ", ".join(f"{p}: {ann(p)}" for p in f["ps"])
        args = "{" + ", ".join(f"{p!r}: {p}" for p in f["ps"]) + "}"
        decs = []
        for L in reversed(f["layers"]):
            decs.append(dec_source(L, f["n"]) if L["k"] == "check" else
                        "@extract_fields({" + ", ".join(f"{x!r}: {ANN[f['tys'][x]]}" for x in f["fs"]) + "})")
        ret = ANN[f["ty"]]
        pre = "async def" if sc["mode"] == "async" else "def"
        if sc["par"]:
            out += decs + [f"def x(it: {ret}) -> {ret}:", "    return it", "", f"def coll(x: Collect[{ret}]) -> list:", "    return list(x)", ""]
        elif f["kind"] == "param":
            decs.append("@parameterize(" + ", ".join(f"{x}={{'at_': value({x!r})}}" for x in f["fs"]) + ")")
            out += decs + [f"{pre} {f['n']}({ps + ', ' if ps else ''}at_: str) -> {ret}:", f"    return _rt.call(at_, {args})", ""]
        elif f["decoy"]:
            out += [f"@config.when(mode='a')"] + decs + [f"{pre} {f['n']}__a({ps}) -> {ret}:", f"    return _rt.call({f['n']!r}, {args})", ""]
            out += ["@config.when(mode='b')", "@check_output(allow_none=False, importance='fail')", f"{pre} {f['n']}__b({ps}) -> {ret}:", f"    return None", ""]
        else:
            out += decs + [f"{pre} {f['n']}({ps}) -> {ret}:", f"    return _rt.call({f['n']!r}, {args})", ""]
    return "\n".join(out)


def shown(v):
    if hasattr(v, "dtypes"):
        return repr((list(v.items()) if hasattr(v, "columns") else v.tolist(), str(v.dtypes), str(v.index)))
    return repr({k: shown(x) for k, x in v.items()} if isinstance(v, dict) else v)


PAT = re.compile(r"^\[(.*?):(.*?)\] ")


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.got = []

    def emit(self, record):
        if record.levelno == logging.WARNING:
            m = PAT.match(record.getMessage())
            if m:
                self.got.append([m.group(1), m.group(2)])


def execute(sc):
    from hamilton import async_driver, base, driver
    from hamilton.plugins import pandas_extensions  # noqa: F401  (knows the data frame types)
    from hamilton.data_quality import base as dq
    from hamilton.execution import executors
    rng = random.Random(sc["sseed"])
    logging.disable(logging.NOTSET)
    lg = logging.getLogger("hamilton")
    lg.propagate = False
    lg.handlers = [h for h in lg.handlers if not isinstance(h, Catch)]
    for h in lg.handlers:
        h.setLevel(logging.CRITICAL + 1)
    lg.addHandler(logging.NullHandler())
    dl = logging.getLogger("hamilton.data_quality.base")
    catch = Catch()
    root = logging.getLogger("hamilton")
    root.addHandler(catch)
    ev, mod = [], None
    obj = {}
    for n, v in sc["vals"].items():
        if v["k"] != "dict":
            obj["b:" + n] = py(v)
    for n, v in sc["vals"].items():
        if v["k"] == "dict":
            obj["b:" + n] = {x: obj["b:" + x] for x in v["f"]}
    if sc["par"]:
        for j, v in enumerate(sc["par"]["items"]):
            obj[f"i:{j + 1}"] = py(v)
    dq_rt.reset(obj)
    try:
        e = dict(ev="built", ok=True)
        try:
            mod = prog.make_module(prog.uid("vpdq"), source(sc))
            if sc["mode"] == "async":
                dr = asyncio.run(async_driver.Builder().with_modules(mod).with_config({"mode": "a"}).with_adapters(base.DictResult()).build())
            else:
                b = driver.Builder().with_modules(mod).with_config({"mode": "a"})
                if sc["mode"] == "mem":
                    b = b.with_adapter(base.DictResult())
                else:
                    b = b.enable_dynamic_execution(allow_experimental_mode=True)
                    b = b.with_remote_executor(executors.MultiThreadingExecutor(3) if sc["mode"] == "threads" else executors.SynchronousLocalTaskExecutor())
                dr = b.build()
        except Exception as x:
            e.update(ok=False, err=type(x).__name__)
            return [e]
        finally:
            ev.append(e)
        vs = dr.list_available_variables()
        ev.append(dict(ev="names", names=sorted({v.name for v in vs}),
                       dq={v.name: str(v.tags.get("hamilton.data_quality.source_node")) for v in vs if v.tags.get("hamilton.data_quality.contains_dq_results")}))

        def run(final, ovr):
            dq_rt.clear()
            catch.got = []
            before = {k: shown(v) for k, v in dq_rt.OBJ.items()}
            r = dict(ok=True, res={}, err="", fails=[])
            try:
                if sc["mode"] == "async":
                    r["out"] = asyncio.run(dr.execute(final, overrides=ovr))
                else:
                    r["out"] = dr.execute(final, overrides=ovr)
            except dq.DataValidationError as x:
                r.update(ok=False, err="dv", out=None)
                for m in x.args[0]:
                    g = PAT.match(m)
                    r["fails"].append([g.group(1), g.group(2)] if g else ["?", "?"])
            except Exception as x:
                r.update(ok=False, err="other", out=None, what=repr(x)[:200])
            r["warns"] = [list(w) for w in catch.got]
            r["changed"] = [k for k, v in dq_rt.OBJ.items() if k in before and shown(v) != before[k]]
            return r
        if sc["par"]:
            for _ in range(1 if rng.random() < .7 else 2):
                r = run(["coll"], {})
                ev.append(dict(ev="par", ok=r["ok"], err=r["err"], fails=r["fails"], warns=r["warns"], changed=r["changed"], out=[dq_rt.keys(v) for v in r["out"]["coll"]] if r["ok"] else []))
            return ev
        names = [v.name for v in vs if v.name not in ("mode",)]
        dqn = set(ev[-1]["dq"])
        fin = [n for n in names if n not in dqn]
        for _ in range(rng.randint(1, 3)):
            final = rng.sample(fin, min(len(fin), rng.choice([1, 1, 2, 3])))
            if dqn and rng.random() < .3:
                final += rng.sample(sorted(dqn), 1)
            oenc = {}
            if rng.random() < .35:
                for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2]))):
                    if n in dqn:
                        oenc[n] = dict(k="vr", p=rng.choice(["yes", "no"]))
                    else:
                        t = sc["tyof"].get(n) or sc["tyof"].get(n[:-4])
                        if t == "dict":
                            if n.replace("_raw", "") not in sc["vals"] or sc["vals"][n.replace("_raw", "")]["k"] != "dict":
                                continue
                            same = sc["vals"][n.replace("_raw", "")]["f"]
                            oenc[n] = dict(k="dict", f=same)
                        elif t == "series":
                            old = sc["vals"].get(n) or sc["vals"].get(n[:-4])
                            for _ in range(30):
                                v = gen_val(rng, t)
                                if v["k"] == old["k"] == "series" and v["dt"] == old["dt"]:
                                    oenc[n] = v
                                    break
                        else:
                            oenc[n] = gen_val(rng, t)
            o = {}
            for n, v in oenc.items():
                if v["k"] == "dict":
                    o[n] = {x: py(y) for x, y in v["f"].items()}
                    for x, y in o[n].items():
                        dq_rt.OBJ[f"o:{n}.{x}"] = y
                else:
                    o[n] = py(v)
                dq_rt.OBJ["o:" + n] = o[n]
            r = run(final, o)
            res = {}
            if r["ok"]:
                for k, v in r["out"].items():
                    res[k] = ["yes" if v.passes else "no"] if isinstance(v, dq.ValidationResult) else dq_rt.keys(v)
            ev.append(dict(ev="run", final=final, ovr=oenc, ok=r["ok"], err=r["err"], fails=r["fails"], warns=r["warns"], changed=r["changed"], res=res, what=r.get("what", ""),
                           calls=list(dq_rt.CALLS), args=[list(a) for a in dq_rt.ARGS], vcalls=[list(c) for c in dq_rt.VCALLS]))
            for k in [k for k in dq_rt.OBJ if k.startswith("o:")]:
                del dq_rt.OBJ[k]
        return ev
    finally:
        root.removeHandler(catch)
        if mod is not None:
            prog.drop_module(mod)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        if isinstance(r, dict):
            r = [dict(ev="hang", what=str(r)[:300])]
        extra = ["mode"] + (["it", "coll"] if sc["par"] else [])
        fns = [dict(n=f["n"], kind=f["kind"], ps=f["ps"] if not sc["par"] else [], tys=f["tys"], fs=f["fs"],
                    layers=[{k: v for k, v in L.items() if k not in ("cand", "imp", "form", "tstr")} for L in f["layers"]]) for f in sc["fns"]]
        traces.append(dict(prog=fns, vals=sc["vals"], par=sc["par"] or {}, extra=extra, ev=r))
        metas.append(dict(i=i, mode=sc["mode"]))
    return traces, metas
