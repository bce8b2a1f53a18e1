"""Shared harness of the function-modifier checks: build the decorated module with the real system, run requests, record."""
import logging
import random
import sys

from vp import common, modgen, prog

sys.modules.setdefault("vp_modgen", modgen)


def scenario(seed, tag, mix, i):
    rng = common.rng_for(seed, "mod", tag, i)
    big = rng.random() < .3
    P = modgen.program(rng, mix, nmin=1, nmax=7 if big else 4)
    return dict(P=P, sseed=rng.randrange(1 << 30), nreq=rng.choice([1, 2, 3]), mix=mix,
                cfgs=alt_cfgs(rng, P) if mix in ("cond", "subdag") else [])


def alt_cfgs(rng, P):
    """the same module built again under other configurations (in the same process)"""
    out = []
    for _ in range(rng.choice([0, 1, 2])):
        c = dict(P["config"])
        for k in ("ck1", "ck2", "ck3"):
            if rng.random() < .6:
                c.pop(k, None)
                if rng.random() < .75:
                    c[k] = rng.choice(modgen.CONDVALS[1:])
        out.append(c)
    return out


def execute(sc):
    from hamilton import base, driver
    logging.disable(logging.CRITICAL)
    P = sc["P"]
    rng = random.Random(sc["sseed"])
    made = []
    traces = []
    try:
        try:
            made, top = modgen.build(P)
        except Exception as ex:
            return [dict(config=P["config"], ev=[dict(ev="buildraise", msg=f"{type(ex).__name__}: {ex}"[:200])])]
        for cfgc in [P["config"]] + sc["cfgs"]:
            ev = []
            cfg = {k: modgen.dec(v) for k, v in cfgc.items()}
            cfg["hamilton.enable_power_user_mode"] = True
            try:
                dr = driver.Builder().with_modules(*top).with_config(cfg).with_adapter(base.DictResult()).build()
            except Exception as ex:
                traces.append(dict(config=cfgc, ev=[dict(ev="buildraise", msg=f"{type(ex).__name__}: {ex}"[:200])]))
                continue
            names = sorted(v.name for v in dr.list_available_variables() if not v.is_external_input)
            names = [n for n in names if n not in cfg]
            ev.append(dict(ev="nodes", names=names))
            # names that no active implementation defines are outside values; the others are not supplied
            inputs = {k: v for k, v in P["inputs"].items() if k not in names}
            names = [n for n in names if not any(n == x or n.endswith("." + x) or n == x + ".raw" or n.endswith("." + x + ".raw")
                                                 for x in P["nofinal"])]
            for _ in range(sc["nreq"] if names else 0):
                final = rng.sample(names, rng.randint(1, min(len(names), 4))) if rng.random() < .7 else list(names)
                ev.append(dict(ev="req", final=final))
                modgen._STATE["kid"], modgen._STATE["log"] = P["kid"], []
                try:
                    r = dr.execute(final, inputs={k: modgen.decv(v) for k, v in inputs.items()})
                    ev += modgen._STATE["log"]
                    ev.append(dict(ev="return", res={k: modgen.enc(v) for k, v in r.items()}))
                except Exception as ex:
                    ev += modgen._STATE["log"]
                    ev.append(dict(ev="raise", msg=f"{type(ex).__name__}: {ex}"[:200]))
            traces.append(dict(config=cfgc, inputs=inputs, ev=ev))
    finally:
        for m in made:
            prog.drop_module(m)
    return traces


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        p = modgen.strip(sc["P"])
        if isinstance(r, dict):
            r = [dict(config=sc["P"]["config"], ev=[dict(ev="hang")])]
        for t in r:
            traces.append(dict(p=dict(p, config=t["config"], inputs=t.get("inputs", p["inputs"])), ev=t["ev"]))
            metas.append(dict(i=i, mix=sc["mix"]))
    return traces, metas


MODEL = ["PipeIsFold", "ParamIsApplication", "ConfigSelects", "SubdagIsInlining"]


def run(rep, tier, seed, mix, n_quick, n_deep):
    n = n_quick if tier == "quick" else n_deep
    futs = common.start_models(rep, [("ModMC", "ModMC" if tier == "quick" else "ModMCDeep", MODEL, 2)])
    scs = [scenario(seed, mix, mix, i) for i in range(n)]
    res = common.run_pool(rep, execute, scs, procs=6, per=20)
    traces, metas = to_traces(scs, res)
    common.judge(rep, "ModTrace", traces, metas, None)
    common.finish_models(rep, futs)
    rep.coverage["samples"] = [dict(ev=traces[0]["ev"])]
