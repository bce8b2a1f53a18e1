"""Random programs with Parallelizable/Collect blocks."""
from vp import prog, vp_rt

MOD = prog.MOD


def rand_par(rng, max_items=4, regions=None, chain_into_block=True):
    names = rng.sample(prog.NAMES, 26)
    it = iter(names)
    leaves = [next(it) for _ in range(rng.choice([1, 2, 3]))]
    nodes, order, mod = {}, [], {}

    def add(nm, ps, kind, **kw):
        opt = {p: prog.rand_code(rng) for p in ps if p in leaves and rng.random() < .15}
        nd = prog.rand_node(rng, ps, opt)
        if kind != "plain":
            nd["m"] = rng.choice([MOD, 101])
        nd["kind"] = kind
        nd.update(kw)
        nodes[nm] = nd
        order.append(nm)
        mod[nm] = rng.randrange(2)

    outside = []
    for _ in range(rng.choice([0, 1, 2])):
        nm = next(it)
        add(nm, rng.sample(outside + leaves, min(len(outside + leaves), rng.choice([0, 1, 2]))), "plain")
        outside.append(nm)
    nreg = regions or rng.choice([1, 1, 1, 2])
    collects = []
    for r in range(nreg):
        x = next(it)
        pool = outside + leaves
        ps = rng.sample(pool, min(len(pool), rng.choice([0, 1, 1, 2])))
        if collects and rng.random() < .6 and collects[-1] not in ps:
            ps.append(collects[-1])
        add(x, ps, "expand", len=rng.randint(0, max_items), dyn=rng.choice([0, 0, 1]), step=rng.choice([0, 1, 1, 7, 13]),
            gen=rng.random() < .5)
        region = [x]
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            nm = next(it)
            base = rng.sample(region, min(len(region), rng.choice([1, 1, 2])))
            extra = [p for p in rng.sample(pool, min(len(pool), rng.choice([0, 0, 1, 2])))]
            if chain_into_block and collects and rng.random() < .25:
                extra.append(collects[-1])
            ps = list(dict.fromkeys(base + extra))
            rng.shuffle(ps)
            add(nm, ps, "plain")
            region.append(nm)
        c = next(it)
        cp = region[-1]
        extra = rng.sample(pool, min(len(pool), rng.choice([0, 0, 1, 2])))
        if chain_into_block and collects and rng.random() < .25:
            extra.append(collects[-1])
        ps = [cp] + [p for p in extra if p != cp]
        rng.shuffle(ps)
        add(c, ps, "collect", cparam=cp)
        nodes[c]["opt"].pop(cp, None)
        collects.append(c)
    post = []
    for _ in range(rng.choice([0, 1, 2])):
        nm = next(it)
        pool = collects + outside + post + leaves
        ps = rng.sample(pool, min(len(pool), rng.choice([1, 2, 3])))
        add(nm, ps, "plain")
        post.append(nm)
    used = [x for x in leaves if any(x in nd["params"] for nd in nodes.values())]
    P = dict(nodes=nodes, order=order, mod=mod, config={}, inputs={x: prog.rand_code(rng) for x in used}, overrides={},
             ovseq={}, final=[], fail=[], collects=collects, post=post, outside=outside)
    return P


def render(P):
    nmod = max(P["mod"].values(), default=0) + 1
    srcs = [prog.HEADER for _ in range(nmod)]
    for n, nd in P["nodes"].items():
        req = [p for p in nd["params"] if p not in nd["opt"]]
        opt = [p for p in nd["params"] if p in nd["opt"]]
        cp = nd.get("cparam")
        ps = [f"{p}: {'Collect[Any]' if p == cp else 'Any'}" for p in req]
        ps += [f"{p}: Any = _rt.dec({nd['opt'][p]})" for p in opt]
        args = "{" + ", ".join(f"'{p}': {p}" for p in nd["params"]) + "}"
        common = f"'{n}', {args}"
        tail = f"c={nd['c']}, k={nd['k']!r}, m={nd['m']}"
        if nd["kind"] == "expand":
            f = "xgen" if nd["gen"] else "xfn"
            body = f"    return _rt.{f}({common}, {tail}, length={nd['len']}, dyn={nd['dyn']}, step={nd['step']}, as_gen=0)\n"
            if nd["gen"]:
                body = body.replace("return ", "yield from ")
            srcs[P["mod"][n]] += f"def {n}({', '.join(ps)}) -> Parallelizable[Any]:\n{body}\n"
        elif nd["kind"] == "collect":
            srcs[P["mod"][n]] += (f"def {n}({', '.join(ps)}) -> Any:\n    return _rt.cfn({common}, '{cp}', {tail})\n\n")
        else:
            srcs[P["mod"][n]] += f"def {n}({', '.join(ps)}) -> Any:\n    return _rt.bfn({common}, {tail})\n\n"
    return srcs


def spec_view(P):
    return {k: P[k] for k in ("nodes", "order", "config", "inputs", "overrides", "ovseq", "final", "fail")}


def enc_result(P, res):
    out = {}
    for k, v in res.items():
        if k in P["nodes"] and P["nodes"][k]["kind"] == "expand":
            try:
                out[k] = [vp_rt.enc(x) for x in v]
            except TypeError:
                out[k] = [-1]
        else:
            out[k] = vp_rt.enc(v)
    return out
