"""Runtime of tracked programs."""
import datetime
import threading
import time

HERE = threading.local()
TRUTH = {}
LOCK = threading.Lock()
EPOCH = [None]


def now():
    return int((datetime.datetime.now(datetime.timezone.utc) - EPOCH[0]) / datetime.timedelta(microseconds=1))


def odd(k):
    import numpy as np
    import pandas as pd
    return [lambda: 1, lambda: "s", lambda: None, lambda: float("nan"), lambda: {"a": 1}, lambda: {(1, 2): 3}, lambda: [1, 2], lambda: np.arange(4),
            lambda: pd.Series([1., None]), lambda: pd.DataFrame({"x": [1, 2], "y": ["a", None]}), lambda: object(), lambda: (1, 2), lambda: {"a": float("inf")},
            lambda: True, lambda: 2.5, lambda: {}, lambda: [], lambda: ""][k]()


def body(name, ms, fail, k):
    cur = getattr(HERE, "cur", None)
    if cur is not None and cur["node"] == name:
        cur["b0"], cur["timed"] = now(), True
    if ms:
        time.sleep(ms / 1000)
    try:
        if fail:
            raise ValueError("boom " + name)
        return odd(k)
    finally:
        if cur is not None and cur["node"] == name:
            cur["b1"] = now()


async def abody(name, ms, fail, k):
    import asyncio
    if ms:
        await asyncio.sleep(ms / 1000)
    if fail:
        raise ValueError("boom " + name)
    return odd(k)


def entry(run_id, node_name, task_id, deps):
    e = dict(name=node_name if task_id is None else f"{task_id}-{node_name}", node=node_name, task=task_id or "", ok=False, open=True, timed=False, b0=0, b1=0, deps=deps)
    with LOCK:
        TRUTH.setdefault(run_id, []).append(e)
    return e


def witness():
    from hamilton import lifecycle

    class W(lifecycle.NodeExecutionHook):
        def run_before_node_execution(self, *, run_id, node_name, task_id=None, node_dependencies=None, node_input_types=None, **kw):
            HERE.cur = entry(run_id, node_name, task_id, sorted(node_input_types or {}))

        def run_after_node_execution(self, *, run_id, node_name, task_id=None, success, **kw):
            HERE.cur["ok"], HERE.cur["open"] = bool(success), False
            HERE.cur = None
    return W()


def awitness():
    from hamilton.lifecycle import base

    class W(base.BasePreNodeExecuteAsync, base.BasePostNodeExecuteAsync):
        async def pre_node_execute(self, *, run_id, node_, kwargs, task_id=None):
            entry(run_id, node_.name, task_id, sorted(d.name for d in node_.dependencies))

        async def post_node_execute(self, *, run_id, node_, success, task_id=None, **kw):
            for e in TRUTH.get(run_id, []):
                if e["node"] == node_.name and e["task"] == (task_id or ""):
                    e["ok"], e["open"] = bool(success), False
    return W()


def xid():
    """remembers which recorded run an execution had"""
    from hamilton import lifecycle

    class G(lifecycle.GraphExecutionHook):
        last = threading.local()

        def run_before_graph_execution(self, *, run_id, **kw):
            G.last.id = run_id

        def run_after_graph_execution(self, **kw):
            pass
    return G
