exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c28-dask-task-key", prop="C28", file="hamilton/plugins/h_dask.py",
 edits=[('''            self.client.submit(executors.base_execute_task, task)
''','''            # readable keys, so that tasks can be told apart in the dask console
            self.client.submit(
                executors.base_execute_task, task, key=f"{task.base_id}-{task.run_id}"
            )
''')],
 needs="a parallel block of two or more items with DaskExecutor",
 breaks="the tasks of all items have the same dask key, so dask runs one of them and hands its result to all items",
 demo='''
from distributed import Client
from hamilton import ad_hoc_utils, driver
from hamilton.plugins.h_dask import DaskExecutor
src = """
from typing import List
from hamilton.htypes import Collect, Parallelizable


def item(n: int) -> Parallelizable[int]:
    yield from range(n)


def squared(item: int) -> int:
    return item * item


def total(squared: Collect[int]) -> List[int]:
    return list(squared)
"""
if __name__ == "__main__":
    with Client(processes=False, n_workers=1, threads_per_worker=2, dashboard_address=None) as client:
        dr = (
            driver.Builder()
            .enable_dynamic_execution(allow_experimental_mode=True)
            .with_modules(ad_hoc_utils.module_from_source(src))
            .with_remote_executor(DaskExecutor(client=client))
            .build()
        )
        r = dr.execute(["total"], inputs=dict(n=4))
    assert r == dict(total=[0, 1, 4, 9]), r
'''),
dict(id="c28-ray-zero", prop="C28", file="hamilton/plugins/h_ray.py",
 edits=[('''    ray_options = {name.split(".", 1)[1]: json.loads(value) for name, value in ray_tags.items()}

    return ray_options
''','''    ray_options = {}
    for name, value in ray_tags.items():
        option = json.loads(value)
        if option:
            ray_options[name.split(".", 1)[1]] = option

    return ray_options
''')],
 needs="@ray_remote_options with a zero, such as max_retries=0 or num_cpus=0",
 breaks="the option is not passed on, so ray retries the function three times or reserves a cpu",
 demo='''
import sys, types
seen = []
class Remote:
    def __init__(self, fn): self.fn = fn
    def options(self, **o):
        seen.append(o)
        return self
    def remote(self, **k): return self.fn(**k)
ray, wf, rl = types.ModuleType("ray"), types.ModuleType("ray.workflow"), types.ModuleType("ray._raylet")
ray.remote, ray.get, ray._raylet, ray.workflow = Remote, lambda x: x, rl, wf
rl.ObjectRef = ray.ObjectRef = type("ObjectRef", (), {})
sys.modules.update({"ray": ray, "ray.workflow": wf, "ray._raylet": rl})
from hamilton import ad_hoc_utils, base, driver
from hamilton.plugins.h_ray import RayGraphAdapter
src = """
from hamilton.function_modifiers.metadata import ray_remote_options

@ray_remote_options(max_retries=0, num_gpus=1)
def a(x: int) -> int:
    return x
"""
dr = driver.Builder().with_modules(ad_hoc_utils.module_from_source(src)).with_adapters(RayGraphAdapter(base.DictResult())).build()
assert dr.execute(["a"], inputs=dict(x=2)) == dict(a=2)
assert seen[0] == dict(max_retries=0, num_gpus=1), seen
'''),
]
