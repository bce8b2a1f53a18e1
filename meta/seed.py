#!/usr/bin/env python3
"""seed.py <file.py>: the file defines SEEDS = [dict(id, prop, file, edits=[(old,new),...], demo, needs, breaks[, py])].
Makes /verif/seeded/<id> (patch against /repo HEAD) using a scratch clone; checks that the demo passes clean and fails patched."""
import json, os, subprocess, sys, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"/verif/seeded/{s['id']}"
    w = tempfile.mkdtemp(prefix="vp-seed-")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); subprocess.run(["git", "clone", "-q", "-s", "/repo", w + "/r"], check=True)
    files = s["file"] if isinstance(s["file"], list) else [s["file"]] * len(s["edits"])
    for f, (old, new) in zip(files, s["edits"]):
        p = f"{w}/r/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    py = s.get("py", "/opt/venv/bin/python")
    open(d + "/demo.sh", "w").write(f'#!/bin/bash\n# exit 0 iff the behaviour is right\nexport HAMILTON_TELEMETRY_ENABLED=false PYTHONDONTWRITEBYTECODE=1\n'
                                    f'exec timeout 120 {py} "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    sdk = "sdk" in py
    rc = []
    for root in ("/repo", w + "/r"):
        e = dict(os.environ, PYTHONPATH=root + "/ui/sdk/src:" + root if sdk else root)
        p = subprocess.run(["bash", d + "/demo.sh"], cwd=root, env=e, capture_output=True, text=True)
        rc.append(p.returncode)
    print(s["id"], "clean", rc[0], "patched", rc[1], "" if rc[0] == 0 and rc[1] != 0 else "PROBLEM " + (p.stdout + p.stderr)[-500:])
    shutil.rmtree(w)
