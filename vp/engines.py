"""Drives the real code (public API only) and records what it does."""
import logging
import os
import sys
import warnings

os.environ.setdefault("HAMILTON_TELEMETRY_ENABLED", "false")
os.environ["HAMILTON_TELEMETRY_ENABLED"] = "false"
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

from hamilton import base, driver  # noqa: E402
from hamilton.execution import executors, grouping  # noqa: E402

from vp import prog, vp_rt  # noqa: E402

GROUPINGS = {
    "blocks": grouping.GroupByRepeatableBlocks,
    "each": grouping.GroupNodesIndividually,
    "one": grouping.GroupNodesAllAsOne,
    "level": grouping.GroupNodesByLevel,
}


def builder_for(P, mods, engine="default", adapters=(), extra=None):
    b = driver.Builder().with_modules(*mods).with_config(prog.dec_map(P["config"]))
    if adapters:
        b = b.with_adapters(*adapters)
    if engine.startswith("task"):
        _, grp, exe = engine.split(":")
        b = b.enable_dynamic_execution(allow_experimental_mode=True)
        if exe == "sync":
            le = executors.SynchronousLocalTaskExecutor()
            re_ = executors.SynchronousLocalTaskExecutor()
        elif exe.startswith("thread"):
            n = int(exe[6:] or 2)
            le = executors.SynchronousLocalTaskExecutor()
            re_ = executors.MultiThreadingExecutor(max_tasks=n)
        else:
            le, re_ = extra["local"], extra["remote"]
        b = b.with_local_executor(le).with_remote_executor(re_)
        if grp != "default":
            b = b.with_grouping_strategy(GROUPINGS[grp]())
    return b


def answer(events, thunk):
    """Runs thunk and appends the return / raise event."""
    try:
        res = thunk()
    except Exception as ex:  # behaviour, not harness failure
        events = list(vp_rt.LOG)
        who = ex.name if isinstance(ex, vp_rt.Boom) else ""
        events.append(dict(ev="raise", cls=type(ex).__name__, who=str(who), msg=str(ex)[:300]))
        return events
    events = list(vp_rt.LOG)
    if isinstance(res, dict):
        events.append(dict(ev="return", res={str(k): vp_rt.enc(v) for k, v in res.items()}))
    else:
        events.append(dict(ev="badresult", res=repr(res)[:200]))
    return events


def run_request(dr, P, hook=None):
    vp_rt.reset(P["fail"])
    vp_rt.HOOK[0] = hook
    ins, ovs = prog.dec_map(P["inputs"]), prog.dec_map(P["overrides"])
    kw = dict(inputs=ins, overrides=ovs)
    if not ins and P.get("none_in"):
        kw["inputs"] = None
    if not ovs and P.get("none_in"):
        kw["overrides"] = None
    before = (repr(ins), repr(ovs))
    ev = answer([], lambda: dr.execute(list(P["final"]), **kw))
    if (repr(ins), repr(ovs)) != before:
        ev.append(dict(ev="arguments-mutated"))
    return ev


def spec_view(P):
    """The part of the program record the specs read."""
    keys = ("nodes", "order", "config", "inputs", "overrides", "final", "fail", "ty")
    return {k: P[k] for k in keys if k in P}
