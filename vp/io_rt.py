"""Runtime of the modules generated for loading/saving: every value is the text of what computed it."""
import dataclasses
import threading

CALLS = []
HOOKS = []
_lock = threading.Lock()


class T0(str):
    pass


class T1(T0):
    pass


class T2(T1):
    pass


class T3(T0):
    pass


def show(v):
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], dict):
        v = v[0]
    if isinstance(v, dict) and "text" in v:
        return v["text"]
    return str(v) if isinstance(v, T0) else repr(v)


def note(t):
    with _lock:
        CALLS.append(t)
    return t


def call(k, name, args):
    t = note(("M:" if k == "datasaver" else "") + f"{name}({','.join(show(a) for a in args)})")
    if k == "dataloader":
        return T2(t), {"about": name}
    return {"text": t} if k == "datasaver" else T2(t)


TYPE = {"T1": T1, "T2": T2, "T3": T3, "dict": dict}
SUB = {"T1": ["T1"], "T2": ["T2", "T1"], "T3": ["T3"], "dict": ["dict"]}


def adapter(c, kind, save):
    """the adapter class described by c"""
    from typing import Any
    from hamilton.io.data_adapters import DataLoader, DataSaver
    tname = {v: k for k, v in TYPE.items()}

    def args(self):
        return ",".join(f"{f}={show(getattr(self, f))}" for f in c["fields"])

    def load_data(self, type_):
        return T2(note(f"L:{c['cls']}({args(self)};{tname.get(type_, str(type_))})")), {"from": c["cls"]}

    def save_data(self, data):
        return {"text": note(f"S:{c['cls']}({show(data)};{args(self)})")}
    types = [Any if t == "Any" else TYPE[t] for t in c["types"]]
    ns = dict(applicable_types=classmethod(lambda cls: types), name=classmethod(lambda cls: kind))
    ns["save_data" if save else "load_data"] = save_data if save else load_data
    ann, body = {}, dict(ns)
    for f in c["req"]:
        ann[f] = Any
    for f in c["optv"]:
        ann[f] = Any
        body[f] = c["optv"][f]
    body["__annotations__"] = ann
    cls = type(c["cls"], (DataSaver if save else DataLoader,), body)
    cls.__module__ = __name__
    return dataclasses.dataclass(cls)


def joiner(name, ty):
    from hamilton.lifecycle import ResultBuilder

    class JB(ResultBuilder):
        def build_result(self, **outputs):
            return T2(note(f"J:{name}(" + ",".join(f"{k}={show(outputs[k])}" for k in sorted(outputs)) + ")"))

        def output_type(self):
            return TYPE[ty]
    return JB()


def watcher():
    from hamilton import lifecycle

    class Watch(lifecycle.GraphExecutionHook):
        def run_before_graph_execution(self, **kw):
            HOOKS.append("pre")

        def run_after_graph_execution(self, *, success, error, results, **kw):
            HOOKS.append("post ok" if success and error is None and results is not None else "post failed")
    return Watch()
