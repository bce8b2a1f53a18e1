"""Generator and recorder for the run-time type checker (TypeCheck.tla)."""
import logging

from vp import common, prog, tyc_rt

SC = ["int", "bool", "str", "float", "none", "A", "B"]


def ty(t, *as_, ls=()):
    return {"t": t, "as": list(as_), "ls": list(ls)}


def rtype(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .3:
        return ty(rng.choice(SC + ["Any", "list", "dict", "tuple", "A", "int"]))
    k = rng.choice(["List", "List", "Set", "FrozenSet", "Dict", "Dict", "Mapping", "TupleOf", "Tuple", "Tuple", "Sequence", "Iterable", "Union", "Union", "Opt", "Annotated", "Literal", "Callable"])
    sub = lambda: rtype(rng, depth - 1)  # noqa
    if k == "Literal":
        return ty("Literal", ls=rng.sample([val("str", "a"), val("str", "b"), val("int", 2), val("int", 3)], rng.choice([1, 2])))
    if k == "Callable":
        return ty("Callable")
    if k in ("Set", "FrozenSet"):
        return ty(k, ty(rng.choice(["int", "str", "float"])))
    if k in ("Dict", "Mapping"):
        return ty(k, ty(rng.choice(["str", "int", "Any"])), sub())
    if k == "Tuple":
        return ty(k, *[sub() for _ in range(rng.choice([0, 1, 2, 2, 3]))])
    if k == "Union":
        return ty(k, *[sub() for _ in range(rng.choice([2, 2, 3]))])
    if k == "Opt":
        return ty("Union", sub(), ty("none"))
    return ty(k, sub())


def val(k, p=None, xs=()):
    return dict(k=k, p="" if p is None else repr(p), xs=list(xs))


def scalar(rng, k):
    return {"int": lambda: val("int", rng.choice([2, 3, 4])), "bool": lambda: val("bool", rng.random() < .5), "str": lambda: val("str", rng.choice(["a", "b", ""])),
            "float": lambda: val("float", rng.choice([2.5, 0.5])), "none": lambda: val("none"), "A": lambda: val("A"), "B": lambda: val("B"), "fn": lambda: val("fn")}[k]()


def anyval(rng, d=2):
    if d == 0 or rng.random() < .6:
        return scalar(rng, rng.choice(SC + ["fn"]))
    k = rng.choice(["list", "tuple", "dict", "list", "set"])
    n = rng.choice([0, 1, 2])
    if k == "dict":
        return val("dict", xs=[[scalar(rng, rng.choice(["str", "int"])), anyval(rng, d - 1)] for _ in range(min(n, 1))])
    if k == "set":
        return val("set", xs=[scalar(rng, rng.choice(["str", "int"]))][:n])
    return val(k, xs=[anyval(rng, d - 1) for _ in range(n)])


def good(rng, t):
    """a value of the type"""
    k, a = t["t"], t["as"]
    n = rng.choice([0, 1, 2, 3])
    if k in ("Any",):
        return anyval(rng)
    if k in ("list", "tuple"):
        return val(k, xs=[anyval(rng, 1) for _ in range(n)])
    if k == "dict":
        return val(k, xs=[[scalar(rng, "str"), anyval(rng, 1)]][:n])
    if k in SC:
        return scalar(rng, {"A": rng.choice(["A", "B"]), "int": rng.choice(["int", "int", "bool"])}.get(k, k))
    if k == "Union":
        return good(rng, rng.choice(a))
    if k == "Annotated":
        return good(rng, a[0])
    if k == "Literal":
        return rng.choice(t["ls"])
    if k == "Callable":
        return val("fn")
    if k in ("Set", "FrozenSet"):
        return val(k.lower(), xs=[good(rng, a[0]) for _ in range(n)])
    if k in ("Dict", "Mapping"):
        return val("dict", xs=[[good(rng, a[0] if a[0]["t"] != "Any" else ty("str")), good(rng, a[1])] for _ in range(n)])
    if k == "Tuple":
        return val("tuple", xs=[good(rng, x) for x in a])
    w = {"List": "list", "TupleOf": "tuple"}.get(k) or rng.choice(["list", "tuple"])
    return val(w, xs=[good(rng, a[0]) for _ in range(n)])


def spoil(rng, v):
    """the value with one place changed"""
    v = dict(v, xs=list(v["xs"]))
    if v["xs"] and v["k"] not in ("set", "frozenset") and rng.random() < .75:
        i = rng.randrange(len(v["xs"])) if rng.random() < .5 else -1
        if rng.random() < .15 and v["k"] in ("tuple", "list"):
            v["xs"] = v["xs"][:-1] if rng.random() < .5 else v["xs"] + [v["xs"][-1]]
        elif v["k"] == "dict":
            a, b = v["xs"][i]
            v["xs"][i] = [scalar(rng, rng.choice(["int", "str", "float"])), b] if rng.random() < .4 else [a, spoil(rng, b)]
        else:
            v["xs"][i] = spoil(rng, v["xs"][i])
        return v
    if v["k"] in ("set", "frozenset") and v["xs"] and rng.random() < .5:
        v["xs"] = v["xs"] + [scalar(rng, rng.choice(["int", "str", "float"]))]
        return v
    if v["k"] in ("list", "tuple") and rng.random() < .3:
        return dict(v, k="tuple" if v["k"] == "list" else "list")
    return anyval(rng, 1)


def some(rng, t):
    v = good(rng, t)
    return tyc_rt.enc(tyc_rt.dec(v if rng.random() < .7 else spoil(rng, v)))


def scenario(seed, i):
    rng = common.rng_for(seed, "types", i)
    cin, cout = rng.choice([(True, True), (True, True), (True, False), (False, True)])
    if rng.random() < .2:
        ity, rty = rtype(rng, 1), rtype(rng, 1)
        return dict(kind="par", cin=cin, cout=cout, ity=ity, rty=rty, ret=some(rng, rty), lst=True, runs=[dict(items=[some(rng, ity) for _ in range(rng.choice([0, 1, 2, 3]))]) for _ in range(2)], pep=rng.random() < .5)
    nodes = []
    for j in range(rng.choice([1, 2, 3])):
        ps = rng.sample([d["n"] for d in nodes], rng.randint(0, len(nodes)))
        pty = {}
        for p in ps:
            t = next(d["rty"] for d in nodes if d["n"] == p)
            pty[p] = t if rng.random() < .7 else rng.choice([ty("Any"), ty("Union", t, ty("none"))])
        rty = rtype(rng)
        nodes.append(dict(n=f"n{j}", ps=ps, pty=pty, rty=rty, ret=some(rng, rty), boom="ValueError" if rng.random() < .06 else ""))
    runs = []
    for _ in range(rng.choice([1, 2, 3])):
        ovr = {d["n"]: some(rng, d["rty"]) for d in nodes if rng.random() < .25}
        runs.append(dict(final=sorted(set(rng.choice(nodes)["n"] for _ in range(2))), ovr=ovr))
    return dict(kind="run", cin=cin, cout=cout, nodes=nodes, runs=runs, dyn=rng.random() < .2, pep=rng.random() < .5)


def render(t, pep):
    k, a = t["t"], [render(x, pep) for x in t["as"]]
    if k in SC:
        return {"none": "type(None)"}.get(k, k)
    if k in ("Any", "list", "dict", "tuple"):
        return k
    if k == "Literal":
        return "Literal[" + ", ".join(x["p"] for x in t["ls"]) + "]"
    if k == "Callable":
        return "Callable[[int], int]"
    if k == "Annotated":
        return f"Annotated[{a[0]}, 'note']"
    if k == "TupleOf":
        return f"{'tuple' if pep else 'Tuple'}[{a[0]}, ...]"
    if k == "Tuple":
        return f"{'tuple' if pep else 'Tuple'}[{', '.join(a) or '()'}]"
    if k == "Union":
        return " | ".join(f"({x})" if "|" in x else x for x in a) if pep and not any(x in ("Any",) for x in a[:1]) else f"Union[{', '.join(a)}]"
    if pep and k in ("List", "Dict", "Set", "FrozenSet"):
        k = k.lower()
    return f"{k}[{', '.join(a)}]"


HEAD = ("from typing import Any, Annotated, Callable, Dict, FrozenSet, Iterable, List, Literal, Mapping, Sequence, Set, Tuple, Union\n"
        "from hamilton.htypes import Parallelizable, Collect\nfrom vp import tyc_rt as _rt\nfrom vp.tyc_rt import A, B\n\n")


def source(sc):
    s = HEAD
    if sc["kind"] == "par":
        it, r = render(sc["ity"], sc["pep"]), render(sc["rty"], sc["pep"])
        return s + (f"def item() -> Parallelizable[{it}]:\n    return _rt.items()\n\ndef one(item: {it}) -> {r}:\n    return _rt.go('one')\n\n"
                    f"def all_(one: Collect[{r}]) -> int:\n    return len(list(one))\n")
    for d in sc["nodes"]:
        s += f"def {d['n']}({', '.join(p + ': ' + render(d['pty'][p], sc['pep']) for p in d['ps'])}) -> {render(d['rty'], sc['pep'])}:\n    return _rt.go({d['n']!r})\n\n"
    return s


def execute(sc):
    logging.disable(logging.CRITICAL)
    from hamilton import base, driver
    from hamilton.execution import executors
    from hamilton.lifecycle import FunctionInputOutputTypeChecker
    mod = prog.make_module(prog.uid("vpty"), source(sc))
    out = []
    try:
        try:
            ad = [base.DictResult(), FunctionInputOutputTypeChecker(check_input=sc["cin"], check_output=sc["cout"])]
            b = driver.Builder().with_modules(mod)
            if sc["kind"] == "par" or sc["dyn"]:
                b.enable_dynamic_execution(allow_experimental_mode=True).with_remote_executor(executors.SynchronousLocalTaskExecutor())
            dr = b.with_adapters(*ad).build()
        except Exception:
            return []      # (which graphs are accepted is another property)
        for r in sc["runs"]:
            tyc_rt.CALLS.clear()
            if sc["kind"] == "par":
                tyc_rt.RETS.update(one=(sc["ret"], ""))
                tyc_rt.ITEMS[:] = r["items"]
                e = dict(ev="par", items=r["items"], ok=True, err="", n=-1)
                try:
                    e["n"] = dr.execute(["all_"])["all_"]
                except Exception as ex:
                    e.update(ok=False, err=type(ex).__name__, msg=str(ex)[:200])
                out.append(e)
                continue
            tyc_rt.RETS.update({d["n"]: (d["ret"], d["boom"]) for d in sc["nodes"]})
            e = dict(ev="run", final=r["final"], ovr=r["ovr"], ok=True, err="", res={})
            try:
                res = dr.execute(list(r["final"]), overrides={k: tyc_rt.dec(v) for k, v in r["ovr"].items()})
                e["res"] = {k: tyc_rt.enc(v) for k, v in res.items()}
            except Exception as ex:
                e.update(ok=False, err=type(ex).__name__, msg=str(ex)[:200])
            e["calls"] = list(tyc_rt.CALLS)
            out.append(e)
        return out
    finally:
        prog.drop_module(mod)


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        t = {k: sc[k] for k in ("cin", "cout") + (("nodes",) if sc["kind"] == "run" else ("ity", "rty", "ret"))}
        traces.append(dict(t, ev=[dict(ev="hang", why=str(r)[:300])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, kind=sc["kind"]))
    return traces, metas
