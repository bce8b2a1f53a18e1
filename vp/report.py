"""Evidence files, VIOLATION / KNOWN-FINDING lines, exit codes."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.violations = []      # dicts
        self.known = {}           # finding text -> count
        self.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.model_runs = []
        self.findings = self._load_known()

    def _load_known(self):
        p = os.path.join(ROOT, "known_findings.json")
        try:
            with open(p) as f:
                data = json.load(f)
        except FileNotFoundError:
            return []
        return [x for x in data.get("known", []) if x["property"] == self.pid]

    def finding_matches(self, key):
        """A violation identified by `key` (a stable string naming the specific input/call-site/history class)."""
        for f in self.findings:
            if f["key"] == key:
                return f
        return None

    def add_model(self, r, invariants):
        self.coverage["states"] += r["states"]
        self.coverage["transitions"] += r["transitions"]
        self.model_runs.append(dict(module=r["module"], cfg=r["cfg"], distinct_states=r["states"],
                                    states_generated=r["transitions"], checked=invariants))

    def violation(self, what, replay_obj, key=None):
        if key is not None:
            f = self.finding_matches(key)
            if f is not None:
                self.known[f["what"]] = self.known.get(f["what"], 0) + 1
                return
        self.violations.append(dict(what=what, obj=replay_obj))

    def finish(self):
        ev_dir = os.environ.get("VP_EVIDENCE_DIR") or os.path.join(ROOT, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        replay = os.path.join(ev_dir, f"{self.pid}.replay.json")
        if os.path.exists(replay):
            os.remove(replay)
        cov = dict(self.coverage)
        cov["model_runs"] = self.model_runs
        cov["known_findings_observed"] = self.known
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        for w in sorted(self.known):
            print(f"KNOWN-FINDING: property={self.pid} {w}")
        if self.violations:
            with open(replay, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations=self.violations[:20]), f, indent=1, default=str)
            ev["violations"] = len(self.violations)
        with open(os.path.join(ev_dir, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            for v in self.violations[:5]:
                print(f"  {v['what']}")
            print(f"VIOLATION property={self.pid} replay={replay}")
            sys.stdout.flush()
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={cov['states']} "
              f"traces={cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0
