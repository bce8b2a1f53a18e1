"""Runtime of the modules generated for the builder/driver sessions: a function's value is the text of its call."""
import threading

LOG = []
HOOKS = []
_lock = threading.Lock()


class Sym(str):
    pass


class SubList(list):
    pass


def show(v):
    return str(v) if type(v) is Sym else repr(v)


def call(mod, name, args):
    with _lock:
        LOG.append(name)
    return Sym(f"{mod}.{name}({','.join(show(a) for a in args)})")
