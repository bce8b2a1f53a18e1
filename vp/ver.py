"""Generator and recorder for the command line: versions, differences, validation (Versions.tla)."""
import json
import logging
import os
import re
import shutil
import subprocess
import tempfile

from vp import common

NAMES = ["fa", "fb", "fc", "fd", "fe"]
GIT = dict(GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v", GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null")


def outs(f):
    return f["out"] if f["k"] == "param" else [f["n"]] + f["out"] if f["k"] == "fields" else [f["n"]]


def fn(rng, n, below):
    k = rng.choice(["plain", "plain", "plain", "param", "fields", "when"])
    ps = rng.sample(below, min(len(below), rng.choice([0, 1, 1, 2]))) + ([rng.choice(["x", "y"])] if rng.random() < .5 else [])
    f = dict(n=n, o=n, ps=ps, body=rng.randrange(8), k=k, out=[], key="", val="", tg=rng.choice([0, 0, 0, 1, 2, 3, 4]), cosm=rng.randint(0, 5), file=rng.choice([0, 0, 1]))
    if k in ("param", "fields"):
        f["out"] = [f"{n}_{x}" for x in rng.sample("uvw", rng.choice([1, 2]))]
    if k == "when":
        f["val"] = rng.choice(["1", "2"])
        f.update(key="mode", o=f"{n}__v{f['val']}")
    return f


def fresh(rng, names):
    fs, below = [], []
    for n in NAMES:
        if n in names:
            f = fn(rng, n, below)
            fs.append(f)
            if f["k"] == "when" and rng.random() < .6:
                g = dict(f, val="3" if f["val"] == "2" else "2", body=rng.randrange(8), file=f["file"])
                g["o"] = f"{n}__v{g['val']}"
                fs.append(g)
            below += [x for x in outs(f)]
    return fs


def edit(rng, fs):
    r = rng.random()
    fs = [dict(f) for f in fs]
    if not fs or r < .12:
        names = {f["n"] for f in fs}
        free = [n for n in NAMES if n not in names]
        if free:
            n = rng.choice(free)
            below = sorted({o for f in fs if f["n"] < n for o in outs(f)})
            return sorted(fs + [fn(rng, n, below)], key=lambda f: f["o"])
        return fs
    i = rng.randrange(len(fs))
    f = fs[i]
    if r < .17:
        rng.shuffle(fs)
    elif r < .22:
        f["tg"] = rng.randrange(5)
    elif r < .3:
        f["body"] = rng.randrange(8)
    elif r < .55:
        f["cosm"] = rng.randint(0, 5)
    elif r < .65:
        del fs[i]
    elif r < .75:
        f["ps"] = list(reversed(f["ps"]))
    elif r < .85 and f["ps"]:
        f["ps"] = f["ps"][1:]
    elif r < .92 and f["out"] and f["k"] != "plain":
        f["out"] = f["out"] + [f["n"] + "_z"] if len(f["out"]) < 3 and f["n"] + "_z" not in f["out"] else f["out"][:1]
    else:
        f["file"] = 1 - f["file"]
        for g in fs:
            if g["n"] == f["n"]:
                g["file"] = f["file"]
    return fs


def scenario(seed, i):
    rng = common.rng_for(seed, "ver", i)
    val = rng.choice(["", "1", "2", "3"])
    fs = fresh(rng, rng.sample(NAMES, rng.randint(1, 4)))
    ops, com = [dict(op="edit", fns=fs), dict(op="commit")], 1
    for _ in range(rng.randint(3, 7)):
        r = rng.random()
        if r < .45:
            for _ in range(rng.choice([1, 1, 2])):
                fs = edit(rng, fs)
            ops.append(dict(op="edit", fns=fs))
        elif r < .55:
            ops.append(dict(op="commit"))
            com += 1
        elif r < .7:
            ops.append(dict(op="version"))
        elif r < .9:
            ops.append(dict(op="diff", ref=rng.randint(1, com), view=rng.random() < .3, way=rng.choice(["tag", "sha", "head"])))
        else:
            ns = sorted({o for f in fs for o in outs(f)})
            ops.append(dict(op="validate", final=rng.sample(ns + ["nope"], min(len(ns) + 1, rng.choice([1, 1, 2]))) if rng.random() < .5 or not ns else rng.sample(ns, min(2, len(ns))), ins=[n for n in ["x", "y"] + ns[:1] if rng.random() < .6],
                            ovr=[n for n in ns if rng.random() < .15]))
    for o in ops:
        if o["op"] in ("version", "diff", "validate"):
            o.update(cli=rng.random() < .4, cwd=rng.random() < .3)
    ops += [dict(op="version"), dict(op="diff", ref=com, view=False, way="head")]
    return dict(ops=ops, val=val, ctx=rng.choice(["json", "py"]))


BODY = [("", "0"), ("", "'0'"), ("", "'# 0'"), ("    v = 0\n", "v"), ("    v = 0\n    v = 0\n", "v"), ("    if True:\n        v = 0\n", "v"), ("", "0 + 0"), ("    def g():\n        return 0\n", "g()")]


def render(f):
    c = f["cosm"]
    s = ""
    if c in (1, 4):
        s += f"# about {f['n']} {c}\n"
    if f["tg"] in (1, 2):
        s += f"@tag(who='{f['tg']}')\n"
    if f["k"] == "param":
        s += "@parameterize(" + ", ".join(f"{o}=dict(k=value({o!r}))" for o in f["out"]) + ")" + ("  # many" if c == 2 else "") + "\n"
    if f["k"] == "fields":
        s += "@extract_fields(dict(" + (", " if c != 3 else ",\n   ").join(f"{o}=int" for o in f["out"]) + "))\n"
    if f["k"] == "when":
        s += f"@config.when(mode={f['val']!r})\n"
    if f["tg"] > 2:
        s += f"@tag(who='{f['tg']}')\n"
    ps = [f"{p}: Any" for p in f["ps"]] + (["k: str"] if f["k"] == "param" else [])
    s += f"def {f['o']}({', '.join(ps)}) -> {'dict' if f['k'] == 'fields' else 'int'}:\n"
    if c in (2, 4, 5):
        s += f'    """words {c}"""\n'
    if c == 3:
        s += "\n    # inside\n"
    s += BODY[f["body"]][0]
    v = BODY[f["body"]][1]
    if f["k"] == "fields":
        s += "    return {" + ", ".join(f"{o!r}: {v}" for o in f["out"]) + "}\n"
    else:
        s += f"    return {v}" + ("  # done" if c == 5 else "") + "\n"
    return s + ("\n" * (c % 3 + 1))


HEAD = "from typing import Any\nfrom hamilton.function_modifiers import config, extract_fields, parameterize, tag, value\n\n\n"


def app(cmd, paths, ctx, *opts):
    """the command line application itself, in a state as of a new process"""
    from hamilton.cli import __main__ as cli
    from typer.testing import CliRunner
    cli.state.dr = cli.state.name = None
    r = CliRunner().invoke(cli.cli, ["--json-out", cmd, *map(str, paths), *(["--context", str(ctx)] if ctx else []), *opts])
    if r.exit_code != 0:
        raise RuntimeError(f"exit {r.exit_code} {r.exception!r} {r.stdout[-100:]}")
    m = json.loads(r.stdout.strip().splitlines()[-1])
    if m["command"] != cmd or m["success"] is not True:
        raise AssertionError(str(m))
    return m["message"]


def execute(sc):
    logging.disable(logging.CRITICAL)
    import pathlib
    import warnings
    warnings.simplefilter("ignore")
    from hamilton.cli import commands
    d = os.path.realpath(tempfile.mkdtemp(prefix="vpv"))
    old = os.getcwd()
    env = dict(os.environ, **GIT)
    keep = {k: os.environ.get(k) for k in GIT}
    os.environ.update(GIT)

    def git(*a):
        return subprocess.run(["git", "-C", d, *a], env=env, check=True, capture_output=True, text=True).stdout.strip()
    out, shas = [], []
    try:
        git("init", "-q")
        os.chdir(d)
        sub = os.path.join(d, "sub")
        os.mkdir(sub)
        paths = [pathlib.Path(d) / "flow_a.py", pathlib.Path(sub) / "flow_b.py"]
        ctx = None
        if sc["val"]:
            ctx = pathlib.Path(d) / f"ctx.{sc['ctx']}"
            ctx.write_text(json.dumps({"HAMILTON_CONFIG": {"mode": sc["val"]}}) if sc["ctx"] == "json" else f"HAMILTON_CONFIG = dict(mode={sc['val']!r})\n")
        for op in sc["ops"]:
            o = op["op"]
            e = dict(ev=o, ok=True, err="")
            os.chdir(op.get("cwd") and sub or d)
            try:
                if o == "edit":
                    e["fns"] = [{k: v for k, v in f.items() if k != "cosm"} for f in op["fns"]]
                    for j, p in enumerate(paths):
                        p.write_text(HEAD + "".join(render(f) for f in op["fns"] if f["file"] == j))
                elif o == "commit":
                    git("add", "-A")
                    git("commit", "-q", "--allow-empty", "-m", "c")
                    git("tag", f"t{len(shas) + 1}")
                    shas.append(git("rev-parse", "HEAD"))
                elif o == "version":
                    r = app("version", paths, ctx) if op.get("cli") else commands.version(commands.build(paths, ctx))
                    e.update(nodes=[dict(n=n, h=str(h)) for n, h in r["nodes_hash"].items()], hash=r["dataflow_hash"])
                elif o == "diff":
                    ref = len(shas) if op["way"] == "head" else op["ref"]
                    e.update(ref=ref, view=op["view"], cur=[], ref_=[], edit=[], marks=[])
                    gr = "HEAD" if op["way"] == "head" else f"t{ref}" if op["way"] == "tag" else shas[ref - 1]
                    pic = pathlib.Path(d) / "diff.dot"
                    if op.get("cli"):
                        r = app("diff", paths, ctx, *(["--git-reference", gr] if gr != "HEAD" else []), *(["--view", "--output", str(pic)] if op["view"] else []))
                    else:
                        r = commands.diff(commands.build(paths, ctx), paths, git_reference=gr, view=op["view"], output_file_path=pic, context_path=ctx)
                    t = lambda m: [dict(n=n, f=f or "~") for n, f in m.items()]
                    e.update(cur=t(r["current_only"]), ref_=t(r["reference_only"]), edit=t(r["edit"]))
                    if op["view"]:
                        e["marks"] = marks(pic)
                else:
                    e.update(final=op["final"], ins=op["ins"], ovr=op["ovr"])
                    c2 = pathlib.Path(d) / "ctx2.json"
                    c2.write_text(json.dumps(dict(HAMILTON_CONFIG={"mode": sc["val"]} if sc["val"] else {}, HAMILTON_FINAL_VARS=op["final"], HAMILTON_INPUTS={n: 1 for n in op["ins"]}, HAMILTON_OVERRIDES={n: 1 for n in op["ovr"]})))
                    app("validate", paths, c2) if op.get("cli") else commands.validate(commands.build(paths, c2), c2)
            except Exception as ex:
                e.update(ok=False, err=f"{type(ex).__name__} {ex}"[:200])
            out.append(e)
        return out
    finally:
        os.chdir(old)
        for k, v in keep.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
        shutil.rmtree(d, ignore_errors=True)


COLORS = dict(greenyellow="cur", tomato1="ref", yellow2="edit")


def marks(path):
    """node -> mark, from the dot graph without its legend"""
    for p in (path.with_suffix(""), path):
        if p.exists():
            src = p.read_text()
            break
    src = src.split("subgraph cluster__legend")[0] if "cluster__legend" in src else src
    r = {}
    for m in re.finditer(r'^\s*("[^"]+"|[\w.]+) \[(.*?label=<<b>.*?)\]\s*;?$', src, re.M):
        if "shape=note" in m[2]:
            continue
        n = m[1].strip('"')
        c = re.search(r'fillcolor="?([\w#]+)', m[2])
        r.setdefault(n, set()).add(COLORS.get(c[1] if c else "", "same"))
    return [dict(n=n, m=m) for n, ms in r.items() for m in sorted(ms)]


def to_traces(scs, res):
    traces, metas = [], []
    for i, (sc, r) in enumerate(zip(scs, res)):
        if isinstance(r, dict) and "lost" in r:
            continue
        traces.append(dict(key="mode" if sc["val"] else "", val=sc["val"], ev=[dict(ev="hang", why=str(r)[:300])] if isinstance(r, dict) else r))
        metas.append(dict(i=i))
    return traces, metas


def debug(sc):
    return json.dumps(sc)
