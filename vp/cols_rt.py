"""Runtime of the column functions: every value is the text of what computed it."""
CALLS = []    # dict(n, t)
FINALS = []
FORGET = [False]


def is_expr(v):
    return type(v).__module__.startswith("polars") and type(v).__name__ == "Expr"


def show(v):
    if isinstance(v, str):
        return v
    if is_expr(v):
        return "?"
    return "[" + ";".join(str(x) for x in v) + "]"


def one(n, args):
    CALLS.append(dict(n=n, t=f"{n}({','.join(show(a) for a in args)})"))
    return f"{n}({','.join(args)})"


def col(n, args):
    CALLS.append(dict(n=n, t=f"{n}({','.join(show(a) for a in args)})"))
    return combine(n, args)


def get(n, frame, c):
    CALLS.append(dict(n=n, t=f"{n}(frame)"))
    import polars as pl
    if isinstance(frame, pl.LazyFrame):
        if c not in frame.collect_schema().names():
            raise KeyError(c)
        return combine(n, [pl.col(c)])
    return combine(n, [frame[c]])


def combine(n, args):
    if any(is_expr(a) for a in args):
        import polars as pl
        parts = [pl.lit(f"{n}(")]
        for i, a in enumerate(args):
            parts += ([pl.lit(",")] if i else []) + [pl.lit(a) if isinstance(a, str) else a]
        return pl.concat_str(parts + [pl.lit(")")])
    ser = next(a for a in args if not isinstance(a, str))
    k = len(ser)
    rows = [f"{n}({','.join(a if isinstance(a, str) else list(a)[r] for a in args)})" for r in range(k)]
    if type(ser).__module__.startswith("pandas"):
        import pandas as pd
        return pd.Series(rows, index=ser.index, dtype=object)
    import polars as pl
    return pl.Series(rows, dtype=pl.Utf8)


def final(n, frame, args):
    FINALS.append(f"{n}({','.join(args)})")
    return frame


def mk(lib, frame, idx):
    if lib == "pandas":
        import pandas as pd
        return pd.DataFrame({x["c"]: pd.Series(x["v"], index=idx, dtype=object) for x in frame}, index=idx)
    import polars as pl
    d = pl.DataFrame({x["c"]: pl.Series(x["v"], dtype=pl.Utf8) for x in frame})
    return d.lazy() if lib == "lazy" else d


def rd(lib, frame, idx):
    if lib == "pandas":
        return [dict(c=str(c), v=[str(x) for x in frame[c]]) for c in frame.columns], [str(i) for i in frame.index]
    if lib == "lazy":
        frame = frame.collect()
    return [dict(c=c, v=[str(x) for x in frame[c]]) for c in frame.columns], idx
