"""Random / enumerated Hamilton programs, rendered as real Python modules, plus the JSON form read by the specs."""
import linecache
import os
import random
import sys
import types

from vp import vp_rt

sys.modules.setdefault("vp_rt", vp_rt)
MOD = vp_rt.MOD
_uid = [0]

NAMES = ["a", "b", "ab", "a_b", "b_a", "aa", "x", "x_1", "x_10", "x1", "total", "total_a", "raw", "raw_x", "inputs_",
         "out", "out_raw", "mean", "std", "spend", "spend_mean", "signups", "config_", "node_", "data", "dat", "result",
         "results", "values_", "final", "k", "kk", "kkk", "z9", "z", "foo", "foo_bar", "bar", "baz", "qux"]


def make_module(name, source):
    """Module object from source text with working inspect.getsource, nothing on disk."""
    mod = types.ModuleType(name)
    fname = f"<vpm:{name}>"
    mod.__file__ = fname
    linecache.cache[fname] = (len(source), None, [ln + "\n" for ln in source.splitlines()], fname)
    sys.modules[name] = mod
    exec(compile(source, fname, "exec"), mod.__dict__)
    return mod


def drop_module(mod):
    sys.modules.pop(mod.__name__, None)
    linecache.cache.pop(mod.__file__, None)


def uid(prefix="vpm"):
    _uid[0] += 1
    return f"{prefix}_{os.getpid()}_{_uid[0]}"


HEADER = ("import typing\nfrom typing import Any, List, Dict\nimport vp_rt as _rt\n"
          "from hamilton.htypes import Parallelizable, Collect\n")


def fn_source(name, nd, deco="", ann="Any", ret="Any", call="fn"):
    ps = []
    req = [p for p in nd["params"] if p not in nd["opt"]]
    opt = [p for p in nd["params"] if p in nd["opt"]]
    # required parameters first (Python syntax), original relative order kept
    for p in req:
        t = nd.get("ann", {}).get(p, ann)
        ps.append(f"{p}: {t}")
    for p in opt:
        t = nd.get("ann", {}).get(p, ann)
        ps.append(f"{p}: {t} = _rt.dec({nd['opt'][p]})")
    args = "{" + ", ".join(f"'{p}': {p}" for p in nd["params"]) + "}"
    return (f"{deco}def {name}({', '.join(ps)}) -> {nd.get('ret', ret)}:\n"
            f"    return _rt.{call}('{nd.get('fn', name)}', {args}, c={nd['c']}, k={nd['k']!r}, m={nd['m']})\n\n")


def render(P, where=None, order=None):
    """where: node -> module index.  Returns list of sources."""
    nmod = max(P["mod"].values(), default=0) + 1
    srcs = [HEADER for _ in range(nmod)]
    for n in (order or list(P["nodes"])):
        srcs[P["mod"][n]] += fn_source(n, P["nodes"][n], deco=P.get("deco", {}).get(n, ""))
    return srcs


def build_modules(srcs, prefix="vpm"):
    u = uid(prefix)
    return [make_module(f"{u}_{i}", s) for i, s in enumerate(srcs)]


def rand_node(rng, params, opt):
    return dict(params=list(params), opt=dict(opt), c=rng.randrange(1, 900),
                k={p: rng.randrange(1, 900) for p in params}, m=rng.choice([MOD, MOD, MOD, 17, 14]))


def rand_code(rng):
    return rng.choice([rng.randrange(0, vp_rt.NSPEC), rng.randrange(vp_rt.NSPEC, MOD), rng.randrange(0, 60)])


def rand_program(rng, nmin=2, nmax=9, p_opt=0.25, p_cfg=0.5, nmods=3, ext=4):
    n = rng.randint(nmin, nmax)
    names = rng.sample(NAMES, n + ext + 3)
    nodes_o, exts, cfgs = names[:n], names[n:n + ext], names[n + ext:]
    rng.shuffle(nodes_o)
    n_cfg = rng.randint(0, 2) if rng.random() < p_cfg else 0
    cfgs = cfgs[:n_cfg]
    leaves = exts[:rng.randint(1, ext)] + cfgs
    nodes = {}
    for i, nm in enumerate(nodes_o):
        pool = nodes_o[:i] * 3 + leaves
        k = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4])
        ps = []
        for _ in range(k):
            if not pool:
                break
            # bias to recent nodes for depth
            p = rng.choice(pool[-6:] if rng.random() < .3 else pool)
            if p not in ps:
                ps.append(p)
        opt = {p: rand_code(rng) for p in ps if rng.random() < p_opt}
        nodes[nm] = rand_node(rng, ps, opt)
    mod = {nm: rng.randrange(nmods) for nm in nodes}
    order = list(nodes)
    used = set(p for nd in nodes.values() for p in nd["params"])
    config = {c: rand_code(rng) for c in cfgs}
    inputs = {}
    for x in exts:
        if x in used and x not in config:
            inputs[x] = rand_code(rng)
    return dict(nodes=nodes, order=order, mod=mod, config=config, inputs=inputs, overrides={}, final=[], fail=[])


def leaves_of(P):
    used = []
    for nd in P["nodes"].values():
        for p in nd["params"]:
            if p not in P["nodes"] and p not in used:
                used.append(p)
    return used


def dec_map(m):
    return {k: vp_rt.dec(v) for k, v in m.items()}


def enc_map(m):
    return {k: vp_rt.enc(v) for k, v in m.items()}
