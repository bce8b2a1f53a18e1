"""Running TLC: exhaustive model checking of a design spec, and batch validation of recorded traces.

Trace validation protocol: a trace spec `XTrace.tla` reads the ndjson file named by the environment
variable TRACES (one scenario + recorded behaviour per line), has one initial state per line and for
every line prints exactly one  <<"VERDICT", tid, clause, pos>>  where clause = "ok" or the name of the
clause of the specification that the recorded behaviour breaks.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


def scratch(prefix="vp-"):
    return tempfile.mkdtemp(prefix=prefix)


def _run(args, cwd, env=None, timeout=800):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(args, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def java(extra, cwd, env=None, heap="3g", timeout=800):
    tmp = scratch("vp-java-")
    try:
        args = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={tmp}",
                "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE"] + extra
        return _run(args, cwd, env, timeout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(module, cfg=None, workers=4, timeout=800, simulate=None, heap="6g", deadlock=False, env=None):
    """Exhaustively check spec/<module>.tla with spec/<cfg>.cfg.  Returns dict(ok, states, transitions, out)."""
    meta = scratch("vp-tlc-")
    try:
        extra = ["-workers", str(workers), "-metadir", meta, "-config", (cfg or module) + ".cfg"]
        if not deadlock:
            extra.append("-deadlock")
        if simulate:
            extra += ["-simulate", simulate]
        extra.append(module + ".tla")
        rc, out = java(extra, SPEC, env=env, heap=heap, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    gen, dist = _stats(out)
    ok = rc == 0 and "Model checking completed. No error has been found." in out
    if simulate:
        ok = rc == 0 and "Error:" not in out
    return dict(ok=ok, states=dist, transitions=gen, out=out, rc=rc, module=module, cfg=cfg or module)


VERD = re.compile(r'<<"VERDICT", (\d+), "([^"]*)", (-?\d+)>>')


def _validate_batch(args):
    module, lines, workers, timeout = args
    d = scratch("vp-trc-")
    try:
        tf = os.path.join(d, "t.ndjson")
        with open(tf, "w") as f:
            for ln in lines:
                f.write(ln)
                f.write("\n")
        extra = ["-workers", str(workers), "-metadir", os.path.join(d, "m"), "-deadlock",
                 "-config", module + ".cfg", module + ".tla"]
        rc, out = java(extra, SPEC, env={"TRACES": tf}, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    gen, dist = _stats(out)
    v = {}
    for m in VERD.finditer(out):
        v[int(m.group(1)) - 1] = (m.group(2), int(m.group(3)))
    return v, gen, dist, rc, out


def validate(module, traces, procs=4, workers=2, timeout=800, chunk=None):
    """Returns (verdicts list[(clause,pos)], states, transitions).  Total: every trace gets a verdict."""
    n = len(traces)
    if n == 0:
        return [], 0, 0
    lines = [json.dumps(t, separators=(",", ":")) for t in traces]
    size = chunk or max(1, (n + procs - 1) // procs)
    jobs = [(i, lines[i:i + size]) for i in range(0, n, size)]
    verdicts = [None] * n
    gen = dist = 0
    bad = []
    with cf.ThreadPoolExecutor(procs) as ex:
        for (i, ls), (v, g, d, rc, out) in zip(
                jobs, ex.map(_validate_batch, [(module, ls, workers, timeout) for _, ls in jobs])):
            gen += g
            dist += d
            for k, x in v.items():
                verdicts[i + k] = x
            missing = [i + k for k in range(len(ls)) if verdicts[i + k] is None]
            if missing:
                bad.append((missing, out))
    if bad:
        # An evaluation error on one recorded trace aborts the whole TLC run.  Re-run the traces without a
        # verdict in small batches, so that only the trace that the specification cannot even be evaluated on
        # is blamed.  If *nothing* can be evaluated, TLC itself is broken: machinery failure.
        todo = [k for ms, _ in bad for k in ms]
        last = bad[0][1]
        if len(todo) > 400:
            todo_small = todo[:400]
        else:
            todo_small = todo
        step = max(1, len(todo_small) // 16)
        again = []
        with cf.ThreadPoolExecutor(procs) as ex:
            groups = [todo_small[j:j + step] for j in range(0, len(todo_small), step)]
            for gidx, (v, g, d, rc, out) in zip(groups, ex.map(
                    _validate_batch, [(module, [lines[k] for k in gi], 1, timeout) for gi in groups])):
                gen += g
                dist += d
                for j, k in enumerate(gidx):
                    if j in v:
                        verdicts[k] = v[j]
                    else:
                        again.append(k)
                        last = out
        for k in again[:24]:
            v, g, d, rc, out = _validate_batch((module, [lines[k]], 1, timeout))
            if 0 in v:
                verdicts[k] = v[0]
            else:
                last = out
                if re.search(r"Parsing or semantic analysis failed|Could not find|UnsupportedClassVersion|"
                             r"OutOfMemory|Cannot find", out):
                    raise MachineryError(last[-3000:])
                verdicts[k] = ("spec-not-evaluable", -1)
        if all(x is None or x[0] == "spec-not-evaluable" for x in verdicts):
            raise MachineryError(last[-4000:])
        for k in range(n):
            if verdicts[k] is None:
                verdicts[k] = ("unchecked", -1)
    return verdicts, gen, dist
