import concurrent.futures as cf
import random

from vp import pool, tlc


def start_models(rep, specs):
    """Run design-level model checks concurrently with the conformance run.  specs: [(module,cfg,[checked names],workers)]"""
    ex = cf.ThreadPoolExecutor(max_workers=max(1, len(specs)))
    futs = []
    for module, cfg, names, workers in specs:
        futs.append((names, ex.submit(tlc.model_check, module, cfg, workers)))
    return futs


def finish_models(rep, futs):
    for names, f in futs:
        r = f.result()
        if not r["ok"]:
            raise tlc.MachineryError(f"design model {r['module']}/{r['cfg']} does not check:\n" + r["out"][-3000:])
        rep.add_model(r, names)


def judge(rep, module, traces, metas, clauses=None, procs=4, workers=2, describe=None, keyfn=None, chunk=None):
    """Validate traces; report the clauses that belong to this property (all, if clauses is None)."""
    verdicts, gen, dist = tlc.validate(module, traces, procs=procs, workers=workers, chunk=chunk)
    rep.coverage["states"] += dist
    rep.coverage["transitions"] += gen
    n = 0
    tally = {}
    for t, m, (c, pos) in zip(traces, metas, verdicts):
        tally[c] = tally.get(c, 0) + 1
        if c == "unchecked":
            continue
        n += 1
        if c == "ok":
            continue
        if c == "recorder":
            raise tlc.MachineryError(f"recorder inconsistent with itself: {t}")
        if clauses is not None and c not in clauses:
            rep.coverage.setdefault("clauses_of_other_properties", {}).setdefault(c, 0)
            rep.coverage["clauses_of_other_properties"][c] += 1
            continue
        key = keyfn(t, m, c) if keyfn else None
        rep.violation(f"{c} at event {pos} [{module}] {describe(t, m) if describe else m}",
                      dict(clause=c, pos=pos, module=module, meta=m, trace=t), key=key)
    rep.coverage["traces_validated_against_impl"] += n
    rep.coverage.setdefault("verdicts", {})
    for c, k in tally.items():
        rep.coverage["verdicts"][c] = rep.coverage["verdicts"].get(c, 0) + k
    return verdicts


def run_pool(rep, fn, scenarios, procs=8, per=20.0, total=600):
    res = pool.run_all(fn, scenarios, procs=procs, per=per, total=total)
    # a hang (or a dead worker) is only believed if it happens again, alone and with more time
    sus = [i for i, r in enumerate(res) if isinstance(r, dict) and ("hang" in r or ("crash" in r and "tb" not in r))]
    if sus:
        again = pool.run_all(fn, [scenarios[i] for i in sus[:8]], procs=min(4, len(sus)), per=max(30.0, 2 * per), total=240)
        confirmed = 0
        for i, r in zip(sus[:8], again):
            res[i] = r
            confirmed += isinstance(r, dict) and ("hang" in r or "crash" in r)
        if not confirmed:
            for i in sus[8:]:
                res[i] = {"lost": True}
    bad = [r for r in res if isinstance(r, dict) and "harness" in r]
    if bad:
        raise tlc.MachineryError("harness error:\n" + bad[0]["harness"])
    if any(isinstance(r, dict) and "lost" in r for r in res):
        k = sum(1 for r in res if isinstance(r, dict) and "lost" in r)
        rep.coverage["lost_scenarios"] = k
    return res


def rng_for(seed, *tags):
    return random.Random(repr((seed,) + tags))
