"""Runtime of the modules generated for data quality checks."""
import threading

LOCK = threading.Lock()
OBJ = {}      # key -> object
CALLS = []
ARGS = []
VCALLS = []


def reset(obj):
    OBJ.clear()
    OBJ.update(obj)
    clear()


def clear():
    CALLS.clear()
    ARGS.clear()
    VCALLS.clear()


def keys(v):
    return [k for k, o in OBJ.items() if o is v]


def call(at, args):
    with LOCK:
        CALLS.append(at)
        ARGS.append([at, [[n, keys(v)] for n, v in args.items()]])
    return OBJ["b:" + at]


def custom(nm, imp, p, t):
    """a validator with a predicate of its own"""
    from hamilton.data_quality import base as dq

    class V(dq.DataValidator):
        def applies_to(self, datatype):
            return True

        def description(self):
            return nm

        @classmethod
        def name(cls):
            return nm

        def validate(self, dataset):
            with LOCK:
                VCALLS.append([nm, keys(dataset)])
            if p == "boom":
                raise KeyError("validator")
            if p == "le":
                ok = isinstance(dataset, (int, float)) and dataset <= t
            else:
                ok = p == "yes"
            return dq.ValidationResult(passes=ok, message=f"{p}", diagnostics={})
    return V(imp)
