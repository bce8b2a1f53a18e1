"""Runtime used by generated Hamilton modules.

Every generated function body is  `return _rt.fn("name", {"p": p, ...}, c=.., k={..}, m=..)`; it records the call
and computes   out = dec((c + sum k_p * enc(arg_p)) mod m).   enc/dec map Python objects to small integer codes so
that the TLA+ specification can compute the same values.  Codes 0..13 are the falsy / awkward objects.
"""
import threading

SPECIAL = [None, 0, False, "", [], {}, 0.0, (), [1], ["s"], {"k": 1}, "str", 1.5, True]
NSPEC = len(SPECIAL)
MOD = 30011

_lock = threading.RLock()
LOG = []            # recorded events of the current scenario
FAIL = set()        # node names that raise in the current scenario
HOOK = [None]       # optional callable(name) invoked inside the node body (schedule control)
ENABLED = [True]
VIA = None
TH = [False]        # attach the thread to every event


class Boom(Exception):
    """Raised by generated nodes; carries the node name."""

    def __init__(self, name):
        super().__init__(name)
        self.name = name

    def __reduce__(self):
        return (Boom, (self.name,))


def reset(fail=()):
    with _lock:
        LOG.clear()
        FAIL.clear()
        FAIL.update(fail)
        HOOK[0] = None


def emit(**ev):
    if not ENABLED[0]:
        return
    if TH[0]:
        ev["th"] = f"T{threading.get_ident()}"
        if ev["ev"] == "call":
            ev["via"] = bool(getattr(VIA, "on", False))
    with _lock:
        LOG.append(ev)


def enc(o):
    """object -> code; unknown objects -> -1 (never produced by dec, so always rejected by the spec)."""
    for i, s in enumerate(SPECIAL):
        if type(o) is type(s) and o == s:
            return i
    if type(o) is int and NSPEC <= o < MOD:
        return o
    return -1


def dec(c):
    if 0 <= c < NSPEC:
        s = SPECIAL[c]
        return type(s)(s) if isinstance(s, (list, dict)) else s  # fresh containers
    return c


def apply(args, c, k, m):
    tot = c
    for p in args:
        tot += k[p] * enc(args[p])
    return tot % m


def fn(name, args, c, k, m):
    codes = {p: enc(v) for p, v in args.items()}
    if HOOK[0] is not None:
        HOOK[0](name)
    if name in FAIL:
        emit(ev="call", n=name, args=codes, out=-2)
        raise Boom(name)
    out = apply(args, c, k, m)
    emit(ev="call", n=name, args=codes, out=out)
    return dec(out)


NONCE = [0]


def ifn(name, args, c, k, m):
    """a function that gives another result every time"""
    with _lock:
        NONCE[0] += 1
        nonce = NONCE[0]
    return fn(name, args, c + 37 * nonce, k, m)


# ---------------------------------------------------------------- async support
import asyncio  # noqa: E402
import contextvars  # noqa: E402

REQ = contextvars.ContextVar("REQ", default=None)   # per-request record: dict(log, fail, yields, rv)


async def afn(name, args, c, k, m):
    r = REQ.get()
    codes = {p: enc(v) for p, v in args.items()}
    if name in r["rv"]:
        r["rv_started"].add(name)
        if r["rv_started"] >= r["rv"]:
            r["rv_event"].set()
        try:
            await asyncio.wait_for(r["rv_event"].wait(), 4)
        except asyncio.TimeoutError:
            r["log"].append(dict(ev="serialized", n=name))
    for _ in range(r["yields"].get(name, 0)):
        await asyncio.sleep(0)
    if name in r["fail"]:
        r["log"].append(dict(ev="call", n=name, args=codes, out=-2))
        raise Boom(name)
    out = apply(args, c, k, m)
    r["log"].append(dict(ev="call", n=name, args=codes, out=out))
    return dec(out)


def sfn(name, args, c, k, m):
    """synchronous function inside an async driver"""
    r = REQ.get()
    codes = {p: enc(v) for p, v in args.items()}
    if name in r["fail"]:
        r["log"].append(dict(ev="call", n=name, args=codes, out=-2))
        raise Boom(name)
    out = apply(args, c, k, m)
    r["log"].append(dict(ev="call", n=name, args=codes, out=out))
    return dec(out)


# ---------------------------------------------------------------- parallel blocks
class PFAIL:
    on = set()


def xfn(name, args, c, k, m, length, dyn, step, as_gen):
    """expander"""
    codes = {p: enc(v) for p, v in args.items()}
    if HOOK[0] is not None:
        HOOK[0](name)
    base = apply(args, c, k, m)
    if name in FAIL:
        emit(ev="call", n=name, args=codes, out=-2)
        raise Boom(name)
    emit(ev="call", n=name, args=codes, out=base)
    n = base % (length + 1) if dyn else length
    items = [dec((base + j * step) % m) for j in range(n)]
    return items


def xgen(*a, **kw):
    yield from xfn(*a, **kw)


def bfn(name, args, c, k, m):
    """plain node of a parallel program: fails only for even outputs"""
    codes = {p: enc(v) for p, v in args.items()}
    if HOOK[0] is not None:
        HOOK[0](name)
    out = apply(args, c, k, m)
    if name in FAIL and out % 2 == 0:
        emit(ev="call", n=name, args=codes, out=-2)
        raise Boom(name)
    emit(ev="call", n=name, args=codes, out=out)
    return dec(out)


def cfn(name, args, cparam, c, k, m):
    """collect node"""
    items = args[cparam]
    rest = {p: v for p, v in args.items() if p != cparam}
    try:
        lst = [enc(x) for x in items]
    except TypeError:
        lst = [-1]
    codes = {p: enc(v) for p, v in rest.items()}
    codes[cparam] = lst
    if HOOK[0] is not None:
        HOOK[0](name)
    acc = apply(rest, c, k, m)
    for x in lst:
        acc = (acc * 31 + x) % m
    if name in FAIL:
        emit(ev="call", n=name, args=codes, out=-2)
        raise Boom(name)
    emit(ev="call", n=name, args=codes, out=acc)
    return dec(acc)
