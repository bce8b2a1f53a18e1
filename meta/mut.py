"""Development tool: mut.py CHECK[,CHECK] FILE 'old' 'new'  -- run checks against a scratch copy with one textual change."""
import os, shutil, subprocess, sys, tempfile
def run(checks, edits, verbose=True, tier="quick"):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        r = os.path.join(d, "r")
        subprocess.run(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(old) >= 1, (f, old)
            open(p, "w").write(s.replace(old, new, 1))
        out = {}
        for c in checks:
            env = dict(os.environ, HAMILTON_REPO=r, PYTHONPATH=r + ":" + r + "/ui/sdk/src", VP_EVIDENCE_DIR=os.path.join(d, "ev"))
            p = subprocess.run(["/verif/check.sh", c, tier], env=env, capture_output=True, text=True)
            out[c] = p.returncode
            if verbose:
                print(c, "rc", p.returncode, "|", (p.stdout + p.stderr).strip()[-400:].replace("\n", " / "))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    run(a[0].split(","), [tuple(a[i:i+3]) for i in range(1, len(a), 3)])
