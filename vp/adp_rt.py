"""Runtime of the programs run under shipped adapters: values are texts of what computed them, or one of a few plain constants."""
import threading

LOG = []      # (thread, what, name, text)
LOCK = threading.Lock()
RUN = {}


class Term:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Term) and self.t == o.t

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return self.t


class Sen:
    """compared by value"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Sen) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f"Sen{self.k}"


class Sen2(Sen):
    pass


class E(Exception):
    pass


class E1(E):
    pass


class E2(Exception):
    pass


ERR = dict(E=E, E1=E1, E2=E2, ValueError=ValueError, Exception=Exception)
OBJ = object()
CONST = {"None": None, "int:0": 0, "bool:False": False, "float:0.0": 0.0, "str:": "", "str:S": "S", "int:1": 1, "bool:True": True, "obj": OBJ}


def val(t):
    if t in CONST:
        return CONST[t]
    if t.startswith("Sen:"):
        return Sen(int(t[4:]))
    if t.startswith("Sen2:"):
        return Sen2(int(t[5:]))
    return Term(t)


def show(v):
    if v is None:
        return "None"
    if v is OBJ:
        return "obj"
    if isinstance(v, Term):
        return v.t
    if isinstance(v, Sen):
        return f"{type(v).__name__}:{v.k}"
    if type(v) in (int, bool, float, str):
        return f"{type(v).__name__}:{v}"
    if isinstance(v, (list, tuple)) or hasattr(v, "__next__"):
        return "[" + ",".join(show(x) for x in v) + "]"
    return "?" + type(v).__name__


def note(what, name, text=""):
    with LOCK:
        LOG.append((threading.get_ident(), what, name, text))


def go(name, args, ret="", item=None):
    text = f"{name}({','.join(show(a) for a in args)})"
    note("call", name, text)
    b = RUN["boom"].get(name if item is None else f"{name}@{item}")
    if b:
        raise ERR[b](text)
    return val(ret) if ret else Term(text)


def items(name, args):
    note("call", name, f"{name}({','.join(show(a) for a in args)})")
    for i, x in enumerate(RUN["items"]):
        if RUN["experr"] and i == RUN["expat"]:
            raise ERR[RUN["experr"]](name)
        yield val(x)
    if RUN["experr"] and RUN["expat"] >= len(RUN["items"]):
        raise ERR[RUN["experr"]](name)


def items_list(name, args):
    note("call", name, f"{name}({','.join(show(a) for a in args)})")
    if RUN["experr"]:
        raise ERR[RUN["experr"]](name)
    return [val(x) for x in RUN["items"]]
