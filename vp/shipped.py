"""Generator and recorder for the shipped data adapters (Shipped.tla)."""
import json
import logging
import os
import shutil
import tempfile

from vp import common, prog

CAT = json.load(open(os.path.join(os.path.dirname(__file__), "shipped.json")))
CLASSES = sorted(CAT)
ALIAS = dict(row_count_name="row_index_name", row_count_offset="row_index_offset", comment_char="comment_prefix", dtypes="schema_overrides")
POOL = ["'x'", "'y.z'", "''", "0", "1", "7", "2.5", "True", "False", "[]", "['c', 'd']", "[0]", "{}", "{'k': 1}", "('t',)", "None"]
# format -> (lib, cell kinds, may cells be missing, may there be no rows, saver arguments, can append)
FMT = dict(
    pd_csv=("pd", "isfb", 1, 0, dict(index=False), 1), pd_parquet=("pd", "isfb", 1, 1, {}, 0), pd_pickle=("pd", "isfb", 1, 1, {}, 0), pd_json=("pd", "isfb", 1, 0, {}, 0),
    pd_feather=("pd", "isfb", 1, 1, {}, 0), pd_orc=("pd", "isfb", 0, 0, {}, 0), pd_excel=("pd", "isfb", 1, 0, dict(index=False), 0), pd_stata=("pd", "isf", 0, 0, dict(write_index=False), 0),
    pd_xml=("pd", "isf", 0, 0, dict(index=False), 0), pd_html=("pd", "isf", 0, 0, dict(index=False), 0), pd_sql=("pd", "isf", 1, 1, dict(index=False), 1),
    pl_csv=("pl", "isfb", 1, 0, {}, 0), pl_parquet=("pl", "isfb", 1, 1, {}, 0), pl_feather=("pl", "isfb", 1, 1, {}, 0), pl_avro=("pl", "isfb", 1, 1, {}, 0), pl_json=("pl", "isfb", 1, 0, {}, 0),
    pl_spreadsheet=("pl", "isfb", 0, 0, {}, 0), pl_database=("pl", "isf", 1, 0, {}, 1), lz_csv=("lz", "isfb", 1, 0, {}, 0), lz_parquet=("lz", "isfb", 1, 1, {}, 0), lz_feather=("lz", "isfb", 1, 1, {}, 0),
    np_npy=("np", "f", 0, 0, {}, 0), py_json=("py", "isfb", 1, 1, {}, 0), py_pickle=("py", "isfb", 1, 1, {}, 0), py_yaml=("py", "isfb", 1, 1, {}, 0), py_file=("txt", "s", 0, 1, {}, 0), py_bytes=("byt", "s", 0, 1, {}, 0))
FORMATS = sorted(FMT)


def cell(rng, k, miss):
    if miss and k in "sf" and rng.random() < .15:
        return "~"
    if k == "i":
        return f"i:{rng.choice([0, 1, -3, 12, 70000])}"
    if k == "f":
        return f"f:{rng.choice([0.5, -1.25, 2.75, 1000.125])}"
    if k == "b":
        return f"b:{rng.random() < .5}"
    return "s:" + rng.choice(["ab", "x y", "é-q", "a,b", "q\"w", "o'k", "<t&u>", "Z"])


def table(rng, f):
    lib, kinds, miss, empty, _, _ = FMT[f]
    cols = [(c, rng.choice(kinds)) for c in rng.sample(["u", "w", "col_a", "Zed"], rng.randint(1, 3))]
    if f[3:] in ("csv", "excel", "spreadsheet") and (len(cols) == 1 or f[3:] != "csv"):
        miss = 0  # an empty line is no row
    rows = rng.choice([0, 1, 2, 3, 4] if empty else [1, 2, 3, 4])
    if f == "pd_html":  # pandas writes no encoding there
        return dict(cols=[c for c, _ in cols], kinds=[k for _, k in cols], v=[[cell(rng, k, 0).replace("é", "e") for r in range(rows)] for _, k in cols])
    return dict(cols=[c for c, _ in cols], kinds=[k for _, k in cols], v=[[cell(rng, k, miss and r) for r in range(rows)] for _, k in cols])


def scenario(seed, i):
    rng = common.rng_for(seed, "ship", i)
    if i % 2 == 0:
        cls = CLASSES[(i // 2) % len(CLASSES)]
        calls = []
        for _ in range(6):
            p = rng.choice([0, .1, .5, .9])
            given = {f["n"]: rng.choice(POOL) for f in CAT[cls]["fields"] if f["d"] == "REQ" or rng.random() < p}
            calls.append(given)
        return dict(kind="args", cls=cls, calls=calls)
    f = FORMATS[(i // 2) % len(FORMATS)]
    ops, have, enc = [], {}, {}
    for _ in range(rng.randint(3, 7)):
        p = rng.choice(["p", "q"])
        if rng.random() < .5:
            t = table(rng, f)
            how = "new"
            if FMT[f][5] and p in have and have[p]["v"][0] and rng.random() < .4:
                t2 = table(rng, f)
                k = have[p]["kinds"]
                n = rng.randint(1, 3)
                t = dict(cols=have[p]["cols"], kinds=k, v=[[cell(rng, x, 0) for _ in range(n)] for x in k])
                how = "add"
                have[p] = dict(have[p], v=[a + b for a, b in zip(have[p]["v"], t["v"])])
            else:
                have[p] = t
            ops.append(dict(op="save", p=p, t=t, how=how, way=rng.choice(["direct", "direct", "driver"]), pth=rng.random() < .2))
            if f == "py_file":
                enc[p] = ops[-1]["enc"] = rng.choice([None, "utf-8", "latin-1", "utf-16"])
            if f == "py_bytes":
                t["io"] = rng.choice([None, 0, 3])
        else:
            ops.append(dict(op="load", p=p, way=rng.choice(["direct", "direct", "driver"]), pth=rng.random() < .2, enc=enc.get(p)))
    return dict(kind="files", f=f, ops=ops)


# ---------------------------------------------------------------- arguments
def owner(c):
    import importlib
    o = c["owner"]
    if o == "figure":
        from matplotlib.figure import Figure
        return Figure
    if o == "plotly":
        from plotly.basedatatypes import BaseFigure
        return BaseFigure
    a, _, b = o.partition(".")
    m = importlib.import_module(dict(pd="pandas", pl="polars", np="numpy")[a])
    return getattr(m, b) if b else m


def show(v):
    if isinstance(v, os.PathLike):
        return repr(str(v))
    return repr(v)


class Writer:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    _vp_writer = True


def call_once(cls, given, d):
    import importlib
    import inspect
    import numpy as np
    import pandas as pd
    import polars as pl
    c = CAT[cls]
    K = getattr(importlib.import_module(c["mod"]), cls)
    path = os.path.join(d, "f.bin")
    open(path, "w").write("x")
    args = {}
    for f in c["fields"]:
        if f["n"] in given:
            args[f["n"]] = eval(given[f["n"]])
    first = c["fields"][0]["n"]
    if cls == "PandasPickleReader":
        args.pop("path", None)
        args["filepath_or_buffer"] = path
    elif cls == "PandasSqlReader" or cls == "PandasSqlWriter":
        args["query_or_table" if cls == "PandasSqlReader" else "table_name"] = "SELECT 1" if given.get("schema") else "tbl"
    elif cls in ("PolarsDatabaseReader", "PolarsDatabaseWriter"):
        args["query" if cls == "PolarsDatabaseReader" else "table_name"] = "SELECT 1"
    else:
        args[first] = path
    spread = next((f["n"] for f in c["fields"] if f["spread"]), None)
    if spread:
        args[spread] = {"zz1": 5} if given.get(spread) else None
    own = owner(c)
    targets = [(own, c["attr"])] + [(owner(dict(owner=o)), a) for o, a in c["extra"]]
    isread = c["load"]
    ret = {"pd": pd.DataFrame({"a": [1, 2]}), "pl": pl.DataFrame({"a": [1, 2]}), "np": np.array([1, 2])}[c["owner"].split(".")[0]] if c["owner"][:2] in ("pd", "pl", "np") and not c["owner"].startswith("plotly") else None
    if c["attr"].startswith("scan_"):
        ret = ret.lazy()
    if c["attr"] == "read_html":
        ret = [ret]
    if not isread and ret is None:
        if c["owner"] == "figure":
            from matplotlib.figure import Figure
            ret = Figure()
        else:
            import plotly.graph_objects as go
            ret = go.Figure()
    seen, bad, defaults, params = [], [], {}, {}
    data = [None]
    saved = []
    for k, (o, a) in enumerate(targets):
        real = getattr(o, a)
        sig = inspect.signature(real)
        if c["owner"] == "plotly":
            import plotly.io as pio
            sig = inspect.signature(getattr(pio, a))
        ps = list(sig.parameters.values())
        me = c["owner"] in ("pd.DataFrame", "pl.DataFrame", "figure", "plotly") and k == 0
        if me or (ps and ps[0].name in ("self", "fig")):
            ps = ps[1:]
        if a == "save":
            ps = [p for p in ps if p.name != "arr"]
        if a == "to_excel":
            ps = [p for p in ps if p.name != "excel_writer"]
        if inspect.isclass(real) and a == "ExcelWriter":
            ps = [p for p in inspect.signature(real.__new__ if "path" in inspect.signature(real.__new__).parameters else real.__init__).parameters.values()][1:] or ps
        anykw = any(p.kind is p.VAR_KEYWORD for p in ps)
        named = [p for p in ps if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]
        for p in named:
            if p.name not in defaults and p.default is not inspect._empty:
                defaults[p.name] = show(p.default)

        def stub(*xs, _k=k, _a=a, _me=me, _named=named, _any=anykw, **kw):
            xs = list(xs)
            if _me:
                data[0] = xs.pop(0)
            if _a == "save":
                if "arr" in kw:
                    data[0] = kw.pop("arr")
                else:
                    data[0] = xs.pop(1)
            if _a == "to_excel":
                kw.pop("excel_writer", None)
                xs = xs[1:] if xs and getattr(xs[0], "_vp_writer", False) else xs
            names = [p.name for p in _named]
            for n, x in zip(names, xs):
                seen.append([n, show(x)])
            for n, x in kw.items():
                if n not in names and n in ALIAS and not _any:
                    n = ALIAS[n]
                if n not in names and not _any:
                    bad.append(n)
                seen.append([n, show(x)])
            saved.append(_a)
            if _a == "ExcelWriter":
                return Writer()
            if isread:
                return ret
            return 2 if _a == "to_sql" else None
        targets[k] = (o, a, o.__dict__.get(a, None), a in o.__dict__, stub)
    e = dict(ev="call", cls=cls, ok=True, err="", n=0, same=True, args=sorted(given))
    got = None
    try:
        for o, a, _, _, st in targets:
            setattr(o, a, st)
        try:
            ad = K(**args)
            for _ in range(1 + len(given) % 2):  # an adapter may be used again
                seen.clear(), bad.clear(), saved.clear()
                if isread:
                    r = ad.load_data(type(ret))
                    got = r[0]
                else:
                    ad.save_data(ret)
        finally:
            for o, a, old, had, _ in targets:
                if had:
                    setattr(o, a, old)
                else:
                    delattr(o, a)
    except Exception as ex:
        e.update(ok=False, err=f"{type(ex).__name__} {ex}"[:200])
    e["n"] = saved.count(c["attr"])
    e["same"] = (got is ret) if isread else (data[0] is not None and (data[0] is ret or type(data[0]) is type(ret) and str(data[0]) == str(ret)))
    fs = []
    for f in c["fields"]:
        if f["skip"] or f["spread"]:
            continue
        v = show(args[f["n"]]) if f["n"] in args else f["d"]
        if cls == "PandasPickleReader" and f["n"] == "path":
            continue
        fs.append(dict(n=f["n"], lib=f["lib"], v=v, dflt=defaults.get(f["lib"], "~")))
    if spread and args[spread]:
        fs.append(dict(n="zz1", lib="zz1", v="5", dflt="~"))
        bad = [b for b in bad if b != "zz1"]
    skips = {f["lib"] for f in c["fields"] if f["skip"]}
    e["fields"] = fs
    e["kw"] = [dict(k=k, v=v) for k, v in seen if k not in skips]
    e["unknown"] = [b for b in bad if b not in skips]
    e["defaults"] = [dict(k=k, v=v) for k, v in defaults.items()]
    return e


# ---------------------------------------------------------------- files
def un(x):
    k, _, t = x.partition(":")
    return None if x == "~" else {"i": int, "f": float, "s": str, "b": lambda s: s == "True"}[k](t)


def tell(x):
    import numpy as np
    if x is None or type(x).__name__ in ("NAType", "NaTType") or (isinstance(x, float) and x != x):
        return "~"
    if isinstance(x, (bool, np.bool_)):
        return f"b:{bool(x)}"
    if isinstance(x, (int, np.integer)):
        return f"i:{int(x)}"
    if isinstance(x, (float, np.floating)):
        return "~" if x != x else f"f:{float(x)}"
    return f"s:{x}"


def build(t, lib):
    cols = {c: [un(x) for x in v] for c, v in zip(t["cols"], t["v"])}
    if lib == "pd":
        import pandas as pd
        dt = dict(i="int64", f="float64", b="bool", s=object)
        return pd.DataFrame({c: pd.Series(v, dtype=dt[k]) for (c, v), k in zip(cols.items(), t["kinds"])})
    if lib in ("pl", "lz"):
        import polars as pl
        dt = dict(i=pl.Int64, f=pl.Float64, b=pl.Boolean, s=pl.Utf8)
        r = pl.DataFrame({c: pl.Series(v, dtype=dt[k]) for (c, v), k in zip(cols.items(), t["kinds"])})
        return r.lazy() if lib == "lz" and t.get("lazy") else r
    if lib == "np":
        import numpy as np
        return np.array([cols[c] for c in t["cols"]])
    if lib == "txt":
        return json.dumps(cols, ensure_ascii=False)
    if lib == "byt":
        b = json.dumps(cols, ensure_ascii=False).encode("utf-8")
        if t["io"] is None:
            return b
        import io
        r = io.BytesIO(b)
        r.seek(t["io"])
        return r
    return cols


def read(x, lib, cols):
    import pandas as pd
    import polars as pl
    if isinstance(x, list) and len(x) == 1 and isinstance(x[0], pd.DataFrame):
        x = x[0]
    if isinstance(x, pl.LazyFrame):
        x = x.collect()
    if lib == "np":
        return dict(cols=list(cols), v=[[tell(y) for y in r] for r in x]) if x.ndim == 2 else dict(cols=[], v=[])
    if lib in ("txt", "byt"):
        x = json.loads(x)
    if isinstance(x, dict):
        if set(cols) == set(x):  # the order of the keys is not claimed
            x = {c: x[c] for c in cols}
        return dict(cols=list(x), v=[[tell(y) for y in x[c]] for c in x])
    if isinstance(x, pd.DataFrame):
        return dict(cols=[str(c) for c in x.columns], v=[[tell(y) for y in x.iloc[:, j]] for j in range(len(x.columns))])
    return dict(cols=list(x.columns), v=[[tell(y) for y in x[c]] for c in x.columns])


def adapters(f):
    import importlib
    P = "hamilton.plugins."
    lib, _, n = f.partition("_")
    if lib == "pd":
        m = importlib.import_module(P + "pandas_extensions")
        N = dict(csv="CSV", parquet="Parquet", pickle="Pickle", json="Json", feather="Feather", orc="ORC", excel="Excel", stata="Stata", xml="Xml", html="Html", sql="Sql")[n]
        return getattr(m, f"Pandas{N}Reader"), getattr(m, f"Pandas{N}Writer")
    if lib in ("pl", "lz"):
        m = importlib.import_module(P + "polars_post_1_0_0_extensions")
        z = importlib.import_module(P + "polars_lazyframe_extensions")
        N = dict(csv="CSV", parquet="Parquet", feather="Feather", avro="Avro", json="JSON", spreadsheet="Spreadsheet", database="Database")[n]
        return getattr(z, f"PolarsScan{N}Reader") if lib == "lz" else getattr(m, f"Polars{N}Reader"), getattr(m, f"Polars{N}Writer")
    if lib == "np":
        m = importlib.import_module(P + "numpy_extensions")
        return m.NumpyNpyReader, m.NumpyNpyWriter
    if n == "yaml":
        m = importlib.import_module(P + "yaml_extensions")
        return m.YAMLDataLoader, m.YAMLDataSaver
    from hamilton.io import default_data_loaders as D
    return dict(json=(D.JSONDataLoader, D.JSONDataSaver), pickle=(D.PickleLoader, D.PickleSaver), file=(D.RawFileDataLoader, D.RawFileDataSaver), bytes=(D.RawFileDataLoader, D.RawFileDataSaverBytes))[n]


EXT = dict(csv="csv", parquet="parquet", pickle="pkl", json="json", feather="feather", orc="orc", excel="xlsx", stata="dta", xml="xml", html="html", avro="avro", spreadsheet="xlsx", npy="npy", yaml="yaml", file="txt", bytes="bin")
PATHARG = dict(pd_json="filepath_or_buffer", pd_xml=("path_or_buffer", "path_or_buffer"), pd_html=("io", "buf"), pd_stata=("filepath_or_buffer", "path"), pl_csv="file", pl_parquet="file", pl_avro="file", pl_json=("source", "file"), pl_feather=("source", "file"),
               pl_spreadsheet=("source", "workbook"), lz_csv="file", lz_parquet="file", lz_feather=("source", "file"))


def setup():
    """all the extension modules, as if the libraries had been found on start"""
    import importlib
    for m in ("pandas", "polars", "polars_lazyframe", "numpy", "yaml"):
        importlib.import_module(f"hamilton.plugins.{m}_extensions")


class Files:
    def __init__(self, f, d):
        import sqlite3
        self.f, self.d = f, d
        self.lib, _, self.n = f.partition("_")
        self.cols = {}
        if self.n == "sql":
            self.con = sqlite3.connect(os.path.join(d, "db.sqlite"))
        if self.n == "database":
            self.uri = "sqlite:///" + os.path.join(d, "db.sqlite")

    def path(self, p):
        return p if self.n in ("sql", "database") else os.path.join(self.d, f"{p}.{EXT[self.n]}")

    def save_args(self, op):
        a = dict(FMT[self.f][4])
        p = self.path(op["p"])
        if self.n == "sql":
            return dict(a, table_name=p, db_connection=self.con, if_exists="append" if op["how"] == "add" else "replace")
        if self.n == "database":
            return dict(table_name=p, connection=self.uri, if_table_exists="append" if op["how"] == "add" else "replace")
        k = PATHARG.get(self.f, "path")
        k = k if isinstance(k, str) else k[1]
        if op["how"] == "add":
            a.update(mode="a", header=False)
        if op.get("enc"):
            a["encoding"] = op["enc"]
        return dict(a, **{k: self.real(op)})

    def real(self, op):
        import pathlib
        p = self.path(op["p"])
        return pathlib.Path(p) if op["pth"] and self.f in ("pd_csv", "pd_parquet", "pl_csv", "pl_parquet", "py_yaml", "pd_pickle", "pd_feather", "py_bytes") else p

    def load_args(self, op):
        import sqlite3
        p = self.path(op["p"])
        if self.n == "sql":
            return dict(query_or_table=f"SELECT * FROM {p}", db_connection=self.con)
        if self.n == "database":
            return dict(query=f"SELECT * FROM {p}", connection=sqlite3.connect(self.uri[10:]))
        k = PATHARG.get(self.f, "path")
        k = k if isinstance(k, str) else k[0]
        return dict({k: self.real(op)}, **(dict(encoding=op["enc"]) if op.get("enc") else {}))


def F_db(files):
    return files.n == "database"


def meta(m, path, files):
    f, d = m.get("file_metadata"), m.get("dataframe_metadata")
    s = m.get("sql_metadata") or {}
    r = dict(path="~", size="~", real="~", rows="~", ncols="~", cols=["~"])
    if f:
        r.update(path="~" if F_db(files) else str(f["path"]), size="~" if f["size"] is None and not os.path.exists(path) else str(f["size"]), real=str(os.path.getsize(path)) if os.path.exists(path) else "gone")
    if d:
        r.update(rows="~" if d["rows"] is None else str(d["rows"]), ncols=str(d["columns"]), cols=[str(c) for c in d["column_names"]])
    if s:
        r.update(rows="~" if s["rows"] is None else str(s["rows"]))
    return r


SRC = "import io\nimport pandas as pd\nimport polars as pl\nimport numpy as np\nfrom vp import shipped as _s\n\ndef src() -> {t}:\n    return _s.DATA[0]\n\ndef out(inp: {u}) -> {u}:\n    return inp\n"
DATA = [None]
TYPES = dict(pd="pd.DataFrame", pl="pl.DataFrame", lz="pl.LazyFrame", np="np.ndarray", py="dict", txt="str", byt="str")


def execute(sc):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    setup()
    d = tempfile.mkdtemp(prefix="vps")
    try:
        if sc["kind"] == "args":
            return [call_once(sc["cls"], g, d) for g in sc["calls"]]
        return files(sc, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def files(sc, d):
    from hamilton import driver
    from hamilton.io.materialization import from_, to
    f = sc["f"]
    F = Files(f, d)
    lib = FMT[f][0]
    R, W = adapters(f)
    out, cols, mod = [], {}, None
    for op in sc["ops"]:
        p = F.path(op["p"])
        e = dict(ev=op["op"], f=f, p=p, way=op["way"], ok=True, err="", meta=dict(path="~", size="~", real="~", rows="~", ncols="~", cols=["~"]))
        try:
            if op["way"] == "driver":
                mod = prog.make_module(prog.uid("vpsh"), SRC.format(t="pl.DataFrame" if lib == "lz" else TYPES[lib] if lib != "byt" else "bytes" if op["op"] == "load" or op["t"]["io"] is None else "io.BytesIO", u=TYPES[lib]))
                dr = driver.Builder().with_modules(mod).build()
            if op["op"] == "save":
                e.update(t=dict(cols=op["t"]["cols"], v=op["t"]["v"]), how=op["how"])
                x = build(op["t"], lib)
                a = F.save_args(op)
                if op["way"] == "direct":
                    m = W(**a).save_data(x)
                else:
                    DATA[0] = x
                    m = dr.materialize(getattr(to, W.name())(id="sv", dependencies=["src"], **a))[0]["sv"]
                e["meta"] = meta(m, p, F)
                if op["how"] == "add":
                    e["meta"].update(rows="~")
                cols[op["p"]] = op["t"]["cols"]
            else:
                a = F.load_args(op)
                e["t"] = dict(cols=[], v=[])
                if op["way"] == "direct":
                    x, m = R(**a).load_data(R.applicable_types()[0])
                    if f != "pd_html":
                        e["meta"] = meta(m, p, F)
                else:
                    x = dr.materialize(getattr(from_, R.name())(target="inp", **a), additional_vars=["out"])[1]["out"]
                e["t"] = read(x, lib, cols.get(op["p"], []))
                if f == "np_npy":
                    e["meta"].update(rows="~", ncols="~", cols=["~"])
        except Exception as ex:
            e.update(ok=False, err=f"{type(ex).__name__} {ex}"[:200])
        finally:
            if mod:
                prog.drop_module(mod)
                mod = None
        out.append(e)
    return out


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(ev=[dict(ev="hang", why=str(r)[:300])] if isinstance(r, dict) else r))
        metas.append(dict(i=i, what=sc.get("cls") or sc["f"]))
    return traces, metas


def debug(sc):
    return json.dumps(sc)
