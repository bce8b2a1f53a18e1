exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
IOHDR = MODHDR + '''
import dataclasses
from typing import Any, Collection, Dict, Tuple, Type
from hamilton import registry
from hamilton.io.data_adapters import DataLoader, DataSaver
from hamilton.io.materialization import from_, to
SAVED = []
@dataclasses.dataclass
class L(DataLoader):
    arg: int
    def load_data(self, type_: Type) -> Tuple[int, Dict[str, Any]]:
        return self.arg * 100, {"loaded": self.arg}
    @classmethod
    def applicable_types(cls) -> Collection[Type]:
        return [int]
    @classmethod
    def name(cls) -> str:
        return "demoio"
@dataclasses.dataclass
class S(DataSaver):
    arg: int
    def save_data(self, data: Any) -> Dict[str, Any]:
        SAVED.append((self.arg, data))
        return {"saved": data, "arg": self.arg}
    @classmethod
    def applicable_types(cls) -> Collection[Type]:
        return [int]
    @classmethod
    def name(cls) -> str:
        return "demoio"
registry.register_adapter(L)
registry.register_adapter(S)
m = mod("""
def a() -> int:
    return 1
def b(a: int) -> int:
    return a + 1
""")
'''
SEEDS = [
dict(id="c15-none-literal", prop="C15", file="hamilton/io/materialization.py",
 edits=[("""        if not isinstance(kwarg_val, SingleDependency):
""","""        if kwarg_val is None:
            continue  # not given
        if not isinstance(kwarg_val, SingleDependency):
""")],
 needs="a loader or saver argument with a default that is explicitly given as None",
 breaks="the adapter is created with its default instead of the None it was given",
 demo=IOHDR + """
@dataclasses.dataclass
class S2(S):
    arg: Any = 5
    @classmethod
    def name(cls) -> str:
        return "demodef"
registry.register_adapter(S2)
dr = driver.Builder().with_modules(m).build()
mat, _ = dr.materialize(to.demodef(id="s", dependencies=["b"]), to.demodef(id="t", dependencies=["b"], arg=None))
assert mat == {"s": {"saved": 2, "arg": 5}, "t": {"saved": 2, "arg": None}}, mat
"""),
dict(id="c15-additional-saver", prop="C15", file="hamilton/driver.py",
 edits=[('''            raw_results_output = {key: raw_results[key] for key in final_vars}
            outputs = materialization_output, raw_results_output
''','''            raw_results_output = {
                key: raw_results[key] for key in final_vars if key not in materialization_output
            }
            outputs = materialization_output, raw_results_output
''')],
 needs="a saver whose id is also asked for in additional_vars",
 breaks="a requested output is missing from the results",
 demo=IOHDR + '''
dr = driver.Builder().with_modules(m).build()
mat, res = dr.materialize(to.demoio(id="s", dependencies=["b"], arg=7), additional_vars=["b", "s"])
assert mat == {"s": {"saved": 2, "arg": 7}}, mat
assert res == {"b": 2, "s": {"saved": 2, "arg": 7}}, res
assert SAVED == [(7, 2)], SAVED
'''),
]
SDKHDR = '''
import sys, os, threading, time, json
sys.path.insert(0, os.getcwd()); sys.path.insert(0, os.path.join(os.getcwd(), "ui/sdk/src"))
import requests
LOG = []
class R:
    status_code = 200
    def __init__(self, d): self.d = d
    def raise_for_status(self): pass
    def json(self): return self.d
N = [0]
def put(url, json=None, **kw):
    LOG.append(("put", url, json)); return R({})
def post(url, json=None, params=None, **kw):
    N[0] += 1; LOG.append(("post", url, json)); return R({"id": N[0]})
def get(url, params=None, **kw):
    return R(None)
requests.put, requests.post, requests.get = put, post, get
from hamilton_sdk.api import clients
from hamilton_sdk import adapters
from hamilton import driver, base
import types, linecache
def mod(src, name):
    m = types.ModuleType(name)
    import tempfile
    d = tempfile.mkdtemp(); p = os.path.join(d, name + ".py"); open(p, "w").write(src)
    import importlib.util
    s = importlib.util.spec_from_file_location(name, p); m = importlib.util.module_from_spec(s); sys.modules[name] = m
    s.loader.exec_module(m)
    return m
'''
SDK = "/opt/venv-sdk/bin/python"
SEEDS += [
dict(id="c21-middle-run", prop="C21", py=SDK, file="ui/sdk/src/hamilton_sdk/api/clients.py",
 edits=[('''        logger.debug(f"Flushing batch: {len(batch)}")  # Replace with actual processing logic
        # group by dag_run_id -- just incase someone does something weird?
        dag_run_ids = set([item["dag_run_id"] for item in batch])
        for dag_run_id in dag_run_ids:
            attributes_list, task_updates_list = create_batch(batch, dag_run_id)
            try:
                response = requests.put(''','''        logger.debug(f"Flushing batch: {len(batch)}")  # Replace with actual processing logic
        # a batch can hold the end of one run and the start of the next
        dag_run_ids = set([item["dag_run_id"] for item in batch[:1] + batch[-1:]])
        for dag_run_id in dag_run_ids:
            attributes_list, task_updates_list = create_batch(batch, dag_run_id)
            try:
                response = requests.put(''')],
 needs="updates of three runs in one batch (three runs within the flush interval)",
 breaks="the updates of the runs in the middle of a batch never reach the backend",
 demo=SDKHDR + '''
c = clients.BasicSynchronousHamiltonClient("k", "u", "http://127.0.0.1:9")
for r in (1, 2, 3):
    c.update_tasks(r, attributes=[None], task_updates=[dict(node_name="n%d" % r, status="RUNNING")])
time.sleep(0.5)
c.stop()
got = {u["node_name"] for _, url, j in LOG if "dag_runs_bulk" in url for u in j["task_updates"]}
ok = got == {"n1", "n2", "n3"}
print(got)
sys.stdout.flush()
os._exit(0 if ok else 1)
'''),
dict(id="c21-status-from-tasks", prop="C21", py=SDK, file="ui/sdk/src/hamilton_sdk/adapters.py",
 edits=[('''        dw_run_id = self.dw_run_ids[run_id]
        tracking_state = self.tracking_states[run_id]
        tracking_state.clock_end(status=Status.SUCCESS if success else Status.FAILURE)
        finally_block_time = datetime.datetime.utcnow()
        if tracking_state.status != Status.SUCCESS:
            # TODO: figure out how to handle crtl+c stuff
            # -- we are at the mercy of Hamilton here.
            tracking_state.status = Status.FAILURE
            # this assumes the task map only has things that have been processed, not
            # nodes that have yet to be computed.
            for task_name, task_run in tracking_state.task_map.items():
                if task_run.status != Status.SUCCESS:
                    task_run.status = Status.FAILURE
                    task_run.end_time = finally_block_time
                    if task_run.error is None:  # we likely aborted it.
                        # Note if we start to do concurrent execution we'll likely
                        # need to adjust this.
                        task_run.error = ["Run was likely aborted."]
                if task_run.end_time is None and task_run.status == Status.SUCCESS:
                    task_run.end_time = finally_block_time

        self.client.log_dag_run_end(''','''        dw_run_id = self.dw_run_ids[run_id]
        tracking_state = self.tracking_states[run_id]
        # the run is as successful as its tasks
        task_runs = tracking_state.task_map.values()
        if task_runs:
            success = all(task_run.status == Status.SUCCESS for task_run in task_runs)
        tracking_state.clock_end(status=Status.SUCCESS if success else Status.FAILURE)
        finally_block_time = datetime.datetime.utcnow()
        if tracking_state.status != Status.SUCCESS:
            # TODO: figure out how to handle crtl+c stuff
            # -- we are at the mercy of Hamilton here.
            tracking_state.status = Status.FAILURE
            # this assumes the task map only has things that have been processed, not
            # nodes that have yet to be computed.
            for task_name, task_run in tracking_state.task_map.items():
                if task_run.status != Status.SUCCESS:
                    task_run.status = Status.FAILURE
                    task_run.end_time = finally_block_time
                    if task_run.error is None:  # we likely aborted it.
                        # Note if we start to do concurrent execution we'll likely
                        # need to adjust this.
                        task_run.error = ["Run was likely aborted."]
                if task_run.end_time is None and task_run.status == Status.SUCCESS:
                    task_run.end_time = finally_block_time

        self.client.log_dag_run_end(''')],
 needs="a run that fails outside a node (another adapter's node hook raises after the node succeeded)",
 breaks="a failed run is reported as SUCCESS",
 demo=SDKHDR + '''
from hamilton.lifecycle import base as lb
class Bad(lb.BasePostNodeExecute):
    def post_node_execute(self, *, run_id, node_, kwargs, success, error, result, task_id=None):
        if node_.name == "a":
            raise ValueError("hook")
t = adapters.HamiltonTracker(1, "u", "d", hamilton_api_url="http://127.0.0.1:9")
m = mod("def a() -> int:\\n    return 1\\ndef b(a: int) -> int:\\n    return a\\n", "demo_sdk_m")
dr = driver.Builder().with_modules(m).with_adapters(t, Bad()).build()
failed = False
try:
    dr.execute(["b"])
except ValueError:
    failed = True
t.stop()
st = [j["run_status"] for k, url, j in LOG if k == "put" and "/dag_runs/" in url]
print(failed, st)
sys.stdout.flush()
os._exit(0 if failed and st == ["FAILURE"] else 1)
'''),
]
