MODHDR = '''
import sys, os, tempfile, types, linecache
sys.path.insert(0, os.getcwd())
from hamilton import driver
_n = [0]
def mod(src, name=None):
    _n[0] += 1
    name = name or f"demo_mod_{_n[0]}"
    m = types.ModuleType(name); m.__file__ = f"<{name}_{_n[0]}>"
    linecache.cache[m.__file__] = (len(src), None, [x + "\\n" for x in src.splitlines()], m.__file__)
    sys.modules[name] = m
    exec(compile(src, m.__file__, "exec"), m.__dict__)
    return m
'''
SEEDS = [
dict(id="c08-override-version", prop="C08", file="hamilton/caching/adapter.py",
 edits=[('''        data_version = self._version_data(node_name=node_name, run_id=run_id, result=value)
        self.data_versions[run_id][node_name] = data_version
        self._log_event(
            run_id=run_id,
            node_name=node_name,
            task_id=None,
            actor="adapter",
            event_type=CachingEventType.IS_OVERRIDE,''','''        data_version = self.data_versions[run_id].get(node_name)
        if data_version is None:
            data_version = self._version_data(node_name=node_name, run_id=run_id, result=value)
        self.data_versions[run_id][node_name] = data_version
        self._log_event(
            run_id=run_id,
            node_name=node_name,
            task_id=None,
            actor="adapter",
            event_type=CachingEventType.IS_OVERRIDE,''')],
 needs="a request that gives a name both as input and as override, and an earlier run with the same input but another override",
 breaks="the key uses the version of the input although the override is what the function received: stale results",
 demo=MODHDR + '''
m = mod("def b(a: int) -> int:\\n    return a + 1\\n")
d = tempfile.mkdtemp()
dr = driver.Builder().with_modules(m).with_cache(path=d).build()
assert dr.execute(["b"], inputs={"a": 1}) == {"b": 2}
assert dr.execute(["b"], inputs={"a": 1}, overrides={"a": 10}) == {"b": 11}
'''),
dict(id="c08-code-version-reuse", prop="C08", file="hamilton/caching/adapter.py",
 edits=[('''        self.code_versions[run_id] = self.resolve_code_versions(
            run_id=run_id, final_vars=final_vars, inputs=inputs, overrides=overrides
        )
''','''        self.code_versions[run_id] = self.resolve_code_versions(
            run_id=run_id, final_vars=final_vars, inputs=inputs, overrides=overrides
        )
        if task_based := any(n.node_role != hamilton.node.NodeType.STANDARD for n in graph.get_nodes()):
            # nodes that are executed once per item are keyed by their item
            self.code_versions[run_id] = {
                name: (version if graph.nodes[name].input_types else name)
                for name, version in self.code_versions[run_id].items()
            }
''')],
 needs="a dataflow with a Parallelizable block and an edited function without parameters between two cached runs",
 breaks="the edit is not noticed: the old result of the parameterless function is returned",
 demo=MODHDR + '''
S = """from hamilton.htypes import Parallelizable, Collect
def base() -> int:
    return %d
def item(n: int) -> Parallelizable[int]:
    for i in range(n):
        yield i
def one(item: int, base: int) -> int:
    return item + base
def total(one: Collect[int]) -> int:
    return sum(one)
"""
d = tempfile.mkdtemp()
def run(c):
    dr = (driver.Builder().with_modules(mod(S % c, "demo_m")).enable_dynamic_execution(allow_experimental_mode=True)
          .with_cache(path=d).build())
    return dr.execute(["total"], inputs={"n": 2})["total"]
assert run(1) == 3
assert run(10) == 21
'''),
dict(id="c09-driver-default", prop="C09", file="hamilton/caching/adapter.py",
 edits=[('''        if behavior_from_driver is not SENTINEL:
            return behavior_from_driver
        elif behavior_from_tag''','''        if behavior_from_driver is not SENTINEL and (
            behavior_from_driver != CachingBehavior.DEFAULT or behavior_from_tag is SENTINEL
        ):
            return behavior_from_driver
        elif behavior_from_tag''')],
 needs="a node with @cache(behavior=...) for which the driver asks for the default behaviour",
 breaks="the driver's choice does not beat the decorator: the node is recomputed in every run",
 demo=MODHDR + '''
m = mod("from hamilton.function_modifiers import cache\\nN = []\\n@cache(behavior='recompute')\\ndef a() -> int:\\n    N.append(1)\\n    return 1\\n")
d = tempfile.mkdtemp()
for _ in range(2):
    driver.Builder().with_modules(m).with_cache(path=d, default=["a"]).build().execute(["a"])
assert len(m.N) == 1, m.N
'''),
dict(id="c09-cosmetic-key", prop="C09", file="hamilton/graph_types.py",
 edits=[('''        source = inspect.getsource(source)

    source = source.strip()
''','''        lines, number = inspect.getsourcelines(source)
        source = "".join(lines)

    source = source.strip()
    if strip and source.startswith("@"):
        # keep decorated definitions of the same text apart
        source = f"{source}\\n{number}" if "number" in dir() else source
''')],
 needs="a decorated function whose position in the file changes (a comment or another function added above it) between two runs",
 breaks="the node is executed again although neither its code nor its arguments changed",
 demo=MODHDR + '''
S = "from hamilton.function_modifiers import tag\\nimport sys\\nN = []\\n%s\\n@tag(x='y')\\ndef a() -> int:\\n    N.append(1)\\n    return 1\\n"
d = tempfile.mkdtemp()
ns = []
for c in ("", "# a remark\\n# and another"):
    m = mod(S % c, "demo_m")
    driver.Builder().with_modules(m).with_cache(path=d).build().execute(["a"])
    ns.append(len(m.N))
assert ns == [1, 0], ns
'''),
dict(id="c10-shared-temp-file", prop="C10", file="hamilton/caching/stores/file.py",
 edits=[('''        file_path.write_bytes(stored_result.save())
''','''        # write to a temporary file first, such that readers never see a partial result
        temporary_path = file_path.with_name("result.tmp")
        temporary_path.write_bytes(stored_result.save())
        temporary_path.replace(file_path)
''')],
 needs="two processes that store different results in the same cache directory at the same time",
 breaks="the result of one process is stored under the key of the other (or the replace raises): wrong values or a failed run",
 demo=MODHDR + '''
import multiprocessing, time, pathlib
from hamilton.caching.stores.file import FileResultStore
d = tempfile.mkdtemp()
def work(k, n):
    s = FileResultStore(path=d)
    for i in range(n):
        try:
            s.set(f"v{k}_{i}", (k, i))
        except Exception:
            os._exit(5)
    os._exit(0)
ps = []
for k in range(4):
    pid = os.fork()
    if pid == 0:
        work(k, 300)
    ps.append(pid)
bad = sum(os.waitstatus_to_exitcode(os.waitpid(p, 0)[1]) != 0 for p in ps)
s = FileResultStore(path=d)
for k in range(4):
    for i in range(300):
        try:
            bad += s.get(f"v{k}_{i}") != (k, i)
        except Exception:
            bad += 1
assert bad == 0, bad
'''),
dict(id="c11-handle-memo", prop="C11", file="hamilton/caching/stores/sqlite.py",
 edits=[('''        self._thread_local = threading.local()

        # creating''','''        self._thread_local = threading.local()
        self._known = {}

        # creating'''),
        ('''    def get(self, cache_key: str) -> Optional[str]:
        cur = self.connection.cursor()
''','''    def get(self, cache_key: str) -> Optional[str]:
        if cache_key in self._known:
            return self._known[cache_key]
        cur = self.connection.cursor()
'''),
        ('''            data_version = result[0]

        return data_version
''','''            data_version = result[0]
            self._known[cache_key] = data_version

        return data_version
'''),
        ('''        """Delete metadata associated with ``cache_key``."""
        cur''','''        """Delete metadata associated with ``cache_key``."""
        self._known.pop(cache_key, None)
        cur'''),
        ('''        """Delete all existing tables from the database"""
        cur''','''        """Delete all existing tables from the database"""
        self._known.clear()
        cur'''),
        ('''        cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
''','''        self._known.pop(cache_key, None)
        cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
''')],
 needs="two handles on the same metadata database: one reads a key, the other deletes or replaces it, the first reads again",
 breaks="the first handle keeps returning the old data version",
 demo=MODHDR + '''
from hamilton.caching.stores.sqlite import SQLiteMetadataStore
d = tempfile.mkdtemp()
a, b = SQLiteMetadataStore(path=d), SQLiteMetadataStore(path=d)
a.initialize("r")
a.set(cache_key="k", data_version="1", run_id="r", node_name="n", code_version="c")
assert a.get("k") == b.get("k") == "1"
b.delete("k")
assert a.get("k") is None
'''),
]
