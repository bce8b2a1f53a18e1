exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c05-head-of-line", prop="C05", file="hamilton/execution/executors.py",
 edits=[('''        self.active_futures = [f for f in self.active_futures if not f.done()]''','''        # futures are kept in submission order, drop those that are done from the front
        while self.active_futures and self.active_futures[0].done():
            self.active_futures.pop(0)''')],
 needs="a pool in which a task finishes before one that was submitted earlier, with more tasks waiting",
 breaks="slots of finished tasks are not given back while an earlier task runs: the pool runs fewer tasks in parallel than its limit",
 demo=MODHDR + '''
import threading
from hamilton.execution import executors
m = mod("""
import threading
from hamilton.htypes import Parallelizable, Collect
GO = threading.Event()
OK = []
def item(n: int) -> Parallelizable[int]:
    for i in range(n):
        yield i
def work(item: int) -> int:
    if item == 0:
        OK.append(GO.wait(20))      # released by the third item, which the second slot can take
    if item == 2:
        GO.set()
    return item
def total(work: Collect[int]) -> int:
    return sum(work)
""")
dr = (driver.Builder().with_modules(m).enable_dynamic_execution(allow_experimental_mode=True)
      .with_remote_executor(executors.MultiThreadingExecutor(max_tasks=2)).build())
assert dr.execute(["total"], inputs={"n": 3}) == {"total": 3}
assert m.OK == [True], "the second slot was not reused"
'''),
dict(id="c10-vanished-entry", prop="C10", file="hamilton/caching/stores/file.py",
 edits=[('''        result_path = self._path_from_data_version(data_version)
        result_path.unlink(missing_ok=True)

    @override
    def delete_all''','''        result_path = self._path_from_data_version(data_version)
        result_path.rename(result_path.with_suffix(".deleted")).unlink(missing_ok=True)

    @override
    def delete_all''')],
 needs="a stored result that disappears between the cache finding it and reading it (e.g. removed by another process)",
 breaks="the recovery from the lost entry raises FileNotFoundError instead of recomputing",
 demo=MODHDR + '''
from hamilton.caching.stores.file import FileResultStore
class Vanish(FileResultStore):
    armed = False
    def exists(self, data_version):
        r = super().exists(data_version)
        if r and Vanish.armed:
            (self.path / data_version).unlink()
        return r
m = mod("def b(a: int) -> int:\\n    return a + 1\\n")
d = tempfile.mkdtemp()
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
for armed in (False, True):
    Vanish.armed = armed
    dr = driver.Builder().with_modules(m).with_cache(metadata_store=SQLiteMetadataStore(d), result_store=Vanish(d)).build()
    assert dr.execute(["b"], inputs={"a": 1}) == {"b": 2}
'''),
]
