"""Tracking client: scenarios of submitting threads, refusals and stop() against the real client."""
import asyncio
import dataclasses
import datetime
import logging
import pickle
import random
import threading
import time

from vp import common, track_be


class Odd:
    def __repr__(self):
        return "odd"


def odd(k):
    import numpy as np
    return [1, "s", None, float("nan"), float("inf"), {"a": float("-inf")}, [1.5, float("nan")], {(1, 2): 3}, Odd(), np.arange(3),
            np.float64("nan"), b"\x00", "a\x00b", datetime.datetime(2020, 1, 1), {"x": {"y": [Odd()]}}, {1: 2}, (1, Odd()), np.int64(3), {1, 2}][k]


def scenario(seed, i):
    rng = common.rng_for(seed, "client", i)
    aio = rng.random() < .2
    nid, prods = 0, []
    fast = rng.random() < .75
    for p in range(1 if aio else rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 4, 8, 12])):
            r = rng.random()
            if r < .12:
                ops.append(dict(op="pause", ms=rng.choice([1, 5, 30, 80])))
                continue
            nid += 1
            k = rng.choice([1, 1, 2, 3])
            # (one producer per node, so that the order of a node's updates is a fact)
            ops.append(dict(op="sub", id=nid, run=rng.choice([1, 2]), node=f"n{p}_{rng.randrange(3)}",
                            attrs=[rng.random() < .8 for _ in range(k)], odd=rng.randrange(19) if rng.random() < .25 else 1,
                            fields=[f for f in ("status", "start_time", "end_time") if rng.random() < .7],
                            ins=None if rng.random() < .6 else rng.random() < .6))
        prods.append(ops)
    refuse = {}
    if rng.random() < .3:
        for _ in range(rng.choice([1, 1, 2])):
            refuse[rng.randrange(4)] = rng.choice([500, 500, 404, 0]) if not aio else 500
    hold = {rng.randrange(4): rng.choice([.02, .05])} if rng.random() < .3 else {}
    return dict(prods=prods, refuse=refuse, hold=hold, batch=rng.choice([1, 2, 3, 100]), fast=fast or aio, aio=aio,
                late=rng.choice([None, 0, 5, 40]), pick=rng.random() < .15, settle=rng.random() < .5 or aio, sseed=rng.randrange(1 << 30))


def payload(o):
    attrs = [dict(node_name=o["node"], name=f"i{o['id']}_{j}", type="t", schema_version=1, value={"v": odd(o["odd"])}, attribute_role="result_summary") if a else None
             for j, a in enumerate(o["attrs"])]
    u = dict(node_template_name=o["node"], node_name=o["node"], seq=o["id"], **{f: f"{f}{o['id']}" for f in o["fields"]})
    return attrs, u


def execute(sc):
    logging.disable(logging.CRITICAL)
    from hamilton_sdk.api import clients
    sp, url = track_be.space()
    sp.refuse, sp.hold = dict(sc["refuse"]), dict(sc["hold"])
    interval = .04 if sc["fast"] else .6
    done = set()

    def note_sub(o):
        attrs, u = payload(o)
        items = []
        keep = o["ins"] is not False
        if keep:
            items = [a["name"] for a in attrs if a is not None]
        sp.add(ev="sub", id=o["id"], run=str(o["run"]), node=o["node"], attrs=items, upd={k: str(v) for k, v in u.items()} if keep else {})
        return attrs, u

    def quiet(limit):
        """wait until everything submitted has arrived (or been refused), or the limit has passed"""
        t0 = time.time()
        while time.time() - t0 < limit:
            with sp.lock:
                want = sum(len(e["attrs"]) for e in sp.log if e["ev"] == "sub")
                last = {}
                for e in sp.log:
                    if e["ev"] == "sub" and e["upd"]:
                        last[(e["run"], e["node"])] = str(e["id"])
                got = sum(len(e["body"]["attributes"]) for e in sp.log if e["ev"] == "recv")
                for e in sp.log:
                    if e["ev"] == "recv":
                        for u in e["body"]["task_updates"]:
                            if last.get((e["run"], u["node_name"])) == str(u.get("seq")):
                                last.pop((e["run"], u["node_name"]))
            if got >= want and not last:
                return True
            yield .01
        return False

    if sc["aio"]:
        async def main():
            c = clients.BasicAsynchronousHamiltonClient("k", "u", url, verify=False)
            c.flush_interval, c.max_batch_size = interval, sc["batch"]
            await c.ainit()
            for o in sc["prods"][0]:
                if o["op"] == "pause":
                    await asyncio.sleep(o["ms"] / 1000)
                    continue
                # (the async client does not sample)
                o = dict(o, ins=None)
                attrs, u = note_sub(o)
                await c.update_tasks(o["run"], [a for a in attrs if a is not None], [u for _ in attrs])
                done.add(o["id"])
            for w in quiet(4):
                await asyncio.sleep(w)
            sp.add(ev="settled")
            for t in asyncio.all_tasks() - {asyncio.current_task()}:
                t.cancel()
        asyncio.run(main())
        return finish(sp)

    c = clients.BasicSynchronousHamiltonClient("k", "u", url, verify=False)
    c.flush_interval, c.max_batch_size = interval, sc["batch"]
    cs = [c]
    if sc["pick"]:
        c2 = pickle.loads(pickle.dumps(c))
        c2.flush_interval, c2.max_batch_size = interval, sc["batch"]
        cs.append(c2)

    def submit(o, c):
        attrs, u = note_sub(o)
        ins = None if o["ins"] is None else [o["ins"] for _ in attrs]
        c.update_tasks(o["run"], list(attrs), [u for _ in attrs], **({} if ins is None else {"in_samples": ins}))
        done.add(o["id"])

    def produce(p):
        for o in sc["prods"][p]:
            if o["op"] == "pause":
                time.sleep(o["ms"] / 1000)
            else:
                submit(o, cs[p % len(cs)])
    ths = [threading.Thread(target=produce, args=(p,)) for p in range(len(sc["prods"]))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if sc["settle"] and sc["fast"]:
        for w in quiet(4):
            time.sleep(w)
        sp.add(ev="settled")
        if sc["sseed"] % 2:
            for p in range(len(sc["prods"])):
                for o in sc["prods"][p]:
                    if o["op"] == "sub":
                        submit(dict(o, id=o["id"] + 100), cs[p % len(cs)])
    sp.add(ev="stop", must=sorted(done))
    st = [threading.Thread(target=x.stop) for x in cs]
    for t in st:
        t.start()
    if sc["late"] is not None:
        # something is still being tracked while the client stops
        time.sleep(sc["late"] / 1000)
        submit(dict(op="sub", id=999, run=1, node="late", attrs=[True], odd=1, fields=["status"], ins=None), cs[0])
    for t in st:
        t.join(15)
    sp.add(ev="stopped", ended=not any(t.is_alive() for t in st))
    return finish(sp)


def finish(sp):
    out = []
    with sp.lock:
        for e in sp.log:
            if e["ev"] == "recv":
                e = dict(ev="recv", run=e["run"], ok=e["ok"], attrs=[a["name"] for a in e["body"]["attributes"]],
                         upds=[dict(node=u["node_name"], upd={k: str(v) for k, v in u.items()}) for u in e["body"]["task_updates"]])
            out.append(e)
    return out


def to_traces(scs, res):
    traces, metas = [], []
    for i, r in enumerate(res):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(ev=[dict(ev="hang", why=str(r)[:800])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, kind="client"))
    return traces, metas


# ---- processes that end ----
CHILD = r'''
import json, logging, sys
logging.disable(logging.CRITICAL)
sys.path.insert(0, sys.argv[2])
from vp import track
sc = json.loads(sys.argv[1])
from hamilton_sdk.api import clients
c = clients.BasicSynchronousHamiltonClient("k", "u", sc["url"], verify=False)
c.max_batch_size = sc["batch"]
for o in sc["ops"]:
    attrs, u = track.payload(o)
    c.update_tasks(o["run"], attrs, [u for _ in attrs], in_samples=[True for _ in attrs])
if sc["how"] == "stop":
    c.stop()
elif sc["how"] == "stop-twice":
    c.stop()
    c.stop()
elif sc["how"] == "exit":
    sys.exit(3)
elif sc["how"] == "raise":
    raise RuntimeError("the program fails")
'''


def exit_scenario(seed, i):
    rng = common.rng_for(seed, "exit", i)
    ops = [dict(op="sub", id=j + 1, run=rng.choice([1, 2]), node=f"n{rng.randrange(3)}", attrs=[True] * rng.choice([1, 2]), odd=1,
                fields=["status"], ins=None) for j in range(rng.choice([0, 1, 3, 7]))]
    return dict(ops=ops, how=rng.choice(["stop", "stop-twice", "exit", "raise", "end", "end"]), batch=rng.choice([2, 100]))


def execute_exit(sc):
    import json
    import os
    import subprocess
    import sys
    sp, url = track_be.space()
    for o in sc["ops"]:
        attrs, u = payload(o)
        sp.add(ev="sub", id=o["id"], run=str(o["run"]), node=o["node"], attrs=[a["name"] for a in attrs], upd={k: str(v) for k, v in u.items()})
    sp.add(ev="stop", must=[o["id"] for o in sc["ops"]])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        subprocess.run([sys.executable, "-c", CHILD, json.dumps(dict(sc, url=url)), here], timeout=30, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        ended = True
    except subprocess.TimeoutExpired:
        ended = False
    sp.add(ev="stopped", ended=ended)
    return finish(sp)
