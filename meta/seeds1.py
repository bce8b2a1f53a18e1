MODHDR = '''
import sys, types, logging
logging.disable(logging.CRITICAL)
from hamilton import ad_hoc_utils, driver
def mod(src, name="m"):
    return ad_hoc_utils.module_from_source(src, name)
'''
SEEDS = [
dict(id="c02-none-optional", prop="C02", file="hamilton/execution/graph_functions.py",
 edits=[("                if dependency.name in computed:\n                    kwargs[dependency.name] = computed[dependency.name]",
         "                _, dep_kind = node_.input_types[dependency.name]\n                value = computed.get(dependency.name)\n                if value is None and dep_kind == node.DependencyType.OPTIONAL:\n                    continue\n                if dependency.name in computed:\n                    kwargs[dependency.name] = value")],
 needs="an upstream node that returns None feeding a parameter with a default", breaks="the default is used instead of the computed None",
 demo=MODHDR + '''
m = mod("from typing import Any\\ndef a() -> Any:\\n    return None\\ndef b(a: Any = 5) -> Any:\\n    return ('got', a)\\n")
dr = driver.Builder().with_modules(m).build()
assert dr.execute(["b"]) == {"b": ("got", None)}, dr.execute(["b"])
'''),
dict(id="c03-optional-falsy", prop="C03", file="hamilton/execution/state.py",
 edits=[("            if formatted_key not in self.cache:\n                if optional:\n                    continue\n                else:\n                    raise KeyError(f\"Key {formatted_key} not found in cache\")  # noqa E713\n            out[key] = self.cache[formatted_key]",
         "            if optional and self.cache.get(formatted_key) is None:\n                continue\n            if formatted_key not in self.cache:\n                raise KeyError(f\"Key {formatted_key} not found in cache\")  # noqa E713\n            out[key] = self.cache[formatted_key]")],
 needs="a None value crossing a task boundary into a parameter with a default", breaks="the upstream function is called a second time inside the downstream task",
 demo=MODHDR + '''
m = mod("from typing import Any\\nN = []\\ndef a() -> Any:\\n    N.append(1)\\n    return None\\ndef b(a: Any = 5) -> Any:\\n    return ('got', a)\\n")
from hamilton.execution import executors, grouping
dr = (driver.Builder().with_modules(m).enable_dynamic_execution(allow_experimental_mode=True)
      .with_local_executor(executors.SynchronousLocalTaskExecutor()).with_remote_executor(executors.SynchronousLocalTaskExecutor())
      .with_grouping_strategy(grouping.GroupNodesIndividually()).build())
assert dr.execute(["b"]) == {"b": ("got", None)}
assert len(m.N) == 1, f"a was called {len(m.N)} times"
'''),
dict(id="c04-string-order", prop="C04", file="hamilton/execution/state.py",
 edits=[("                    for _group_name, name_map in name_maps.items():", "                    for _group_name, name_map in sorted(name_maps.items()):")],
 needs="more than ten items", breaks="the collected results come in string order of the item number",
 demo=MODHDR + '''
m = mod("""from hamilton.htypes import Parallelizable, Collect
def e() -> Parallelizable[int]:
    for i in range(13):
        yield i
def p(e: int) -> int:
    return e * e
def c(p: Collect[int]) -> list:
    return list(p)
""")
from hamilton.execution import executors
dr = (driver.Builder().with_modules(m).enable_dynamic_execution(allow_experimental_mode=True)
      .with_remote_executor(executors.SynchronousLocalTaskExecutor()).build())
assert dr.execute(["c"])["c"] == [i * i for i in range(13)], dr.execute(["c"])
'''),
dict(id="c05-early-launch", prop="C05", file="hamilton/execution/state.py",
 edits=[("                        for dep in realized_dep_list:\n                            if self.task_states[dep] != TaskState.SUCCESSFUL:\n                                should_launch = False",
         "                        should_launch = all(\n                            self.task_states[dep] == TaskState.SUCCESSFUL for dep in realized_dep_list\n                        )")],
 needs="two dependencies finishing in the opposite of the order they are listed in, on a concurrent executor", breaks="a task is launched before one of its dependencies has finished",
 demo=MODHDR + '''
m = mod("""import time
def a_slow() -> int:
    time.sleep(1.0)
    return 1
def b_fast() -> int:
    time.sleep(0.2)
    return 2
def c(a_slow: int, b_fast: int) -> int:
    return a_slow + b_fast
def y_slow(b_fast: int) -> int:
    time.sleep(1.6)
    return 10
def x_quick(b_fast: int) -> int:
    return 20
def w_quick(b_fast: int) -> int:
    return 20
def d(x_quick: int, y_slow: int) -> int:
    return y_slow - x_quick
def f(y_slow: int, x_quick: int, w_quick: int) -> int:
    return y_slow + x_quick
def g(a_slow: int, w_quick: int, x_quick: int) -> int:
    return a_slow + x_quick
""")
from hamilton.execution import executors, grouping
class AllRemote(executors.ExecutionManager):
    def __init__(self, ex):
        super().__init__([ex]); self.ex = ex
    def get_executor_for_task(self, task):
        return self.ex
dr = (driver.Builder().with_modules(m).enable_dynamic_execution(allow_experimental_mode=True)
      .with_execution_manager(AllRemote(executors.MultiThreadingExecutor(max_tasks=4)))
      .with_grouping_strategy(grouping.GroupNodesIndividually()).build())
assert dr.execute(["c", "d", "f", "g"]) == {"c": 3, "d": -10, "f": 30, "g": 21}
'''),
dict(id="c06-post-kwargs-on-error", prop="C06", file="hamilton/execution/graph_functions.py",
 edits=[("        if __adapter.does_method(\"do_node_execute\", is_async=False):\n            result = __adapter", "        success = False\n        if __adapter.does_method(\"do_node_execute\", is_async=False):\n            result = __adapter"),
        ("            result = __node_(**__kwargs)\n\n        return result\n", "            result = __node_(**__kwargs)\n        success = result is not None\n        return result\n")],
 needs="a node function that succeeds with the value None and an adapter with a post-node hook", breaks="the post-node hook is told that a successful execution failed",
 demo=MODHDR + '''
from hamilton.lifecycle import NodeExecutionHook
seen = []
class H(NodeExecutionHook):
    def run_before_node_execution(self, **kw): pass
    def run_after_node_execution(self, *, node_name, success, error, **kw):
        seen.append((node_name, success, error))
m = mod("from typing import Any\\ndef a() -> Any:\\n    return None\\n")
driver.Builder().with_modules(m).with_adapters(H()).build().execute(["a"])
assert seen == [("a", True, None)], seen
'''),
dict(id="c07-sync-before-async", prop="C07", file="hamilton/async_driver.py",
 edits=[("            fn_kwargs = await await_dict_of_tasks(task_dict)\n            error = None",
         "            fn_kwargs = await await_dict_of_tasks(task_dict)\n            fn_kwargs = {key: value for key, value in fn_kwargs.items() if key not in _defaults or value is not None}\n            error = None"),
        ("        callabl = node_.callable\n", "        callabl = node_.callable\n        _defaults = {\n            key\n            for key, (_, kind) in node_.input_types.items()\n            if kind == node.DependencyType.OPTIONAL\n        }\n")],
 needs="async driver, a dependency that evaluates to None feeding a parameter with a default", breaks="async driver substitutes the default where the sync driver passes None",
 demo=MODHDR + '''
import asyncio
from hamilton import async_driver, base
m = mod("from typing import Any\\nasync def a() -> Any:\\n    return None\\nasync def b(a: Any = 5) -> Any:\\n    return ('got', a)\\n")
async def main():
    dr = await async_driver.Builder().with_modules(m).with_adapters(base.DictResult()).build()
    r = await dr.execute(["b"])
    assert r == {"b": ("got", None)}, r
asyncio.run(main())
'''),
dict(id="c13-falsy-untyped", prop="C13", file="hamilton/driver.py",
 edits=[("                valid = all_inputs[user_node.name] is None\n                if adapter", "                value = all_inputs[user_node.name]\n                valid = value is None or (hasattr(value, \"__len__\") and isinstance(value, (str, list, dict, tuple)) and len(value) == 0)\n                if adapter")],
 needs="an empty container or string supplied for an input of another type", breaks="the request is accepted and runs instead of being rejected",
 demo=MODHDR + '''
m = mod("def b(a: int) -> str:\\n    return repr(a)\\n")
dr = driver.Builder().with_modules(m).build()
try:
    r = dr.execute(["b"], inputs={"a": ""})
except Exception:
    pass
else:
    raise SystemExit(f"accepted: {r}")
'''),
]
