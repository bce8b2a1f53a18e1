"""A schedule-controlled TaskExecutor (public executor interface): the schedule decides, poll by poll, whether a
submission is accepted and when each accepted task completes."""
from hamilton.execution import executors
from hamilton.execution.state import TaskState

from vp import vp_rt


class Schedule:
    """decide(kind, n) -> int in range(n).  Either from an explicit list of choices or from a seeded rng."""

    def __init__(self, rng=None, choices=None, p_reject=0.3, p_done=0.4):
        self.rng, self.choices, self.pos = rng, choices, 0
        self.p_reject, self.p_done = p_reject, p_done
        self.rejected_in_row = 0
        self.polls_idle = 0

    def bit(self, p):
        if self.choices is not None:
            if self.pos < len(self.choices):
                b = self.choices[self.pos]
                self.pos += 1
                return bool(b)
            return True if p >= 0 else False
        return self.rng.random() < p


class ScriptedExecutor(executors.TaskExecutor):
    """eager: run the task body when submitted; lazy: run it when it completes."""

    def __init__(self, sched, name, lazy=True, record=True):
        self.sched, self.name, self.lazy, self.record = sched, name, lazy, record
        self.live = 0
        self.inits = 0
        self.finals = 0
        self.nsub = 0
        self.fail_submit = 0

    def init(self):
        self.inits += 1
        if self.record:
            vp_rt.emit(ev="init", x=self.name)

    def finalize(self):
        self.finals += 1
        if self.record:
            vp_rt.emit(ev="finalize", x=self.name)

    def can_submit_task(self):
        s = self.sched
        if s.choices is not None:
            if s.pos < len(s.choices):
                ok = s.bit(0)
            else:
                ok = True
        else:
            ok = not (s.rng.random() < s.p_reject and s.rejected_in_row < 6)
        s.rejected_in_row = 0 if ok else s.rejected_in_row + 1
        if self.record:
            vp_rt.emit(ev="ask", x=self.name, ok=bool(ok))
        return ok

    def submit_task(self, task):
        st = dict(state="running", res=None, err=None, age=0)
        tid = task.task_id
        if self.record:
            vp_rt.emit(ev="submit", x=self.name, t=tid, nodes=sorted(n.name for n in task.nodes))
        self.live += 1
        self.nsub += 1
        if self.fail_submit == self.nsub:
            if self.record:
                vp_rt.emit(ev="complete", x=self.name, t=tid, ok=False)
            raise vp_rt.Boom("submit")

        def work():
            try:
                st["res"] = executors.base_execute_task(task)
                st["out"] = "ok"
            except Exception as e:
                st["err"] = e
                st["out"] = "fail"

        if not self.lazy:
            work()

        def get_state():
            if st["state"] == "running":
                st["age"] += 1
                s = self.sched
                if s.choices is not None:
                    done = s.bit(0) if s.pos < len(s.choices) else True
                else:
                    done = s.rng.random() < s.p_done or st["age"] > 40
                if done:
                    if self.lazy:
                        work()
                    st["state"] = st["out"]
                    self.live -= 1
                    if self.record:
                        vp_rt.emit(ev="complete", x=self.name, t=tid, ok=st["out"] == "ok")
                else:
                    return TaskState.RUNNING
            return TaskState.SUCCESSFUL if st["state"] == "ok" else TaskState.FAILED

        def get_result():
            if st["state"] == "running":
                return None
            if st["state"] == "fail":
                raise st["err"]
            return st["res"]

        return executors.TaskFuture(get_state=get_state, get_result=get_result)
