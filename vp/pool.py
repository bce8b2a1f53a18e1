"""Run scenarios against the real code in forked worker processes, with per-scenario hang detection."""
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback


class Hang(BaseException):
    pass


def _alarm(_s, _f):
    raise Hang()


REPO = os.environ.get("HAMILTON_REPO", "/repo")


def blame(ex):
    """An exception that escapes a scenario: raised inside the code under test -> behaviour ("crash"), else ours."""
    tb = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-3000:]
    t = ex.__traceback__
    last = ""
    while t is not None:
        last = t.tb_frame.f_code.co_filename
        if last.startswith(REPO + "/"):
            return {"crash": True, "tb": tb}
        t = t.tb_next
    return {"harness": tb}


def run_all(fn, scenarios, procs=8, per=20.0, total=600):
    """fn(scenario) -> JSON-able result.  Returns list aligned with scenarios.  A scenario that does not finish
    within `per` seconds yields {"hang": True}; one whose worker dies yields {"crash": True}.
    fn must catch the exceptions it considers behaviour; anything else is a harness error ({"harness": tb})."""
    n = len(scenarios)
    per = max(per, 45.0)  # a busy machine is not a hang
    procs = max(1, min(procs, n))
    d = tempfile.mkdtemp(prefix="vp-pool-")
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(procs):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                if not os.environ.get("VP_DEBUG"):
                    os.dup2(devnull, 2)
                signal.signal(signal.SIGALRM, _alarm)
                out = open(os.path.join(d, f"{w}.jsonl"), "w")
                hangs = 0
                for i in range(w, n, procs):
                    open(os.path.join(d, f"{w}.cur"), "w").write(str(i))
                    try:
                        signal.setitimer(signal.ITIMER_REAL, per)
                        try:
                            r = fn(scenarios[i])
                        finally:
                            signal.setitimer(signal.ITIMER_REAL, 0)
                    except Hang:
                        r = {"hang": True}
                        hangs += 1
                    except BaseException as ex:
                        r = blame(ex)
                    out.write(json.dumps([i, r]) + "\n")
                    out.flush()
                    if hangs >= 3:
                        break
                out.close()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        pids[pid] = w
    deadline = time.time() + total
    # a worker stuck in un-interruptible code: watchdog on progress
    last = {w: (None, time.time()) for w in range(procs)}
    killed = set()
    while pids:
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid in pids:
            try:
                os.killpg(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            del pids[pid]
            continue
        now = time.time()
        for p, w in list(pids.items()):
            try:
                cur = open(os.path.join(d, f"{w}.cur")).read()
            except OSError:
                cur = None
            if cur != last[w][0]:
                last[w] = (cur, now)
            elif now - last[w][1] > per * 2 + 10 or now > deadline:
                killed.add(w)
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        time.sleep(0.02)
    res = [None] * n
    for w in range(procs):
        try:
            for line in open(os.path.join(d, f"{w}.jsonl")):
                try:
                    i, r = json.loads(line)
                    res[i] = r
                except ValueError:
                    pass
        except OSError:
            pass
        try:
            cur = int(open(os.path.join(d, f"{w}.cur")).read())
            if res[cur] is None:
                res[cur] = {"hang": True} if w in killed else {"crash": True}
        except (OSError, ValueError):
            pass
    shutil.rmtree(d, ignore_errors=True)
    return [r if r is not None else {"lost": True} for r in res]
