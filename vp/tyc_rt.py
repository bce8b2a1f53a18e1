"""Values of the type-checking scenarios."""
CALLS, RETS, ITEMS = [], {}, []


class A:
    def __eq__(self, o):
        return type(self) is type(o)

    def __hash__(self):
        return 1


class B(A):
    pass


def dec(v):
    k, xs = v["k"], v["xs"]
    if k in ("int", "bool", "str", "float"):
        return eval(v["p"])
    if k == "none":
        return None
    if k in ("A", "B"):
        return A() if k == "A" else B()
    if k == "fn":
        return len
    if k == "dict":
        return {dec(a): dec(b) for a, b in xs}
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset}[k](dec(x) for x in xs)


def enc(x):
    if x is None:
        return dict(k="none", p="", xs=[])
    if type(x) in (int, bool, str, float):
        return dict(k=type(x).__name__, p=repr(x), xs=[])
    if isinstance(x, A):
        return dict(k=type(x).__name__, p="", xs=[])
    if x is len:
        return dict(k="fn", p="", xs=[])
    if isinstance(x, dict):
        return dict(k="dict", p="", xs=[[enc(a), enc(b)] for a, b in x.items()])
    if isinstance(x, (set, frozenset)):
        return dict(k=type(x).__name__, p="", xs=[enc(a) for a in sorted(x, key=repr)])
    if isinstance(x, (list, tuple)):
        return dict(k=type(x).__name__, p="", xs=[enc(a) for a in x])
    return dict(k="?" + type(x).__name__, p="", xs=[])


def go(n):
    CALLS.append(n)
    v, boom = RETS[n]
    if boom:
        raise ValueError(n)
    return dec(v)


def items():
    return [dec(v) for v in ITEMS]
