exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
MODHDR = MODHDR.replace("from hamilton import driver", "from hamilton import base, driver")
SEEDS = [
dict(id="c22-failed-memo", prop="C22", file="hamilton/lifecycle/default.py",
 edits=[('''        if not is_expand:
            try:
                return node_callable(**node_kwargs)
            except self.error_to_catch:
                return self.sentinel_value
''','''        if not is_expand:
            node_name = (future_kwargs.get("node_name"), future_kwargs.get("task_id"))
            if node_name in self._failed:
                # no point in trying again what does not work
                return self.sentinel_value
            try:
                return node_callable(**node_kwargs)
            except self.error_to_catch:
                self._failed.add(node_name)
                return self.sentinel_value
'''), ('''        self.allow_injection = allow_injection

    def run_to_execute_node(
''','''        self.allow_injection = allow_injection
        self._failed = set()

    def run_to_execute_node(
''')],
 needs="a function that fails in one run and would succeed in a later one with the same adapter",
 breaks="later runs get the sentinel although their function would succeed",
 demo=MODHDR + '''
m = mod("""
def a(x: int) -> int:
    if x < 0:
        raise ValueError("no")
    return x
def b(a: int) -> int:
    return a + 1
""")
from hamilton.lifecycle import GracefulErrorAdapter
dr = driver.Builder().with_modules(m).with_adapters(base.DictResult(), GracefulErrorAdapter(error_to_catch=ValueError)).build()
assert dr.execute(["b"], inputs={"x": 1}) == {"b": 2}
assert dr.execute(["b"], inputs={"x": -1}) == {"b": None}
assert dr.execute(["b"], inputs={"x": 3}) == {"b": 4}
'''),
dict(id="c22-bool-is-int", prop="C22", file="hamilton/lifecycle/default.py",
 edits=[('''                if type(self.sentinel_value) is type(value):
''','''                if isinstance(value, type(self.sentinel_value)):
''')],
 needs="a sentinel that equals an ordinary value of a subclass, such as 0 and False or 1 and True",
 breaks="functions given an ordinary value that merely equals the sentinel are skipped",
 demo=MODHDR + '''
m = mod("""
def flag(x: int) -> bool:
    return x > 0
def b(flag: bool) -> str:
    return f"flag is {flag}"
""")
from hamilton.lifecycle import GracefulErrorAdapter
dr = driver.Builder().with_modules(m).with_adapters(base.DictResult(), GracefulErrorAdapter(error_to_catch=ValueError, sentinel_value=0)).build()
assert dr.execute(["b"], inputs={"x": 1}) == {"b": "flag is True"}
assert dr.execute(["b"], inputs={"x": -1}) == {"b": "flag is False"}
'''),
dict(id="c23-checked-once", prop="C23", file="hamilton/lifecycle/default.py",
 edits=[('''        self.check_input = check_input
        self.check_output = check_output

    def run_before_node_execution(
''','''        self.check_input = check_input
        self.check_output = check_output
        self._seen = set()

    def run_before_node_execution(
'''), ('''            for input_name, input_value in node_kwargs.items():
                if not htypes.check_instance(input_value, node_input_types[input_name]):
''','''            for input_name, input_value in node_kwargs.items():
                # values of one type need not be looked at again
                key = (node_name, input_name, type(input_value))
                if key in self._seen:
                    continue
                self._seen.add(key)
                if not htypes.check_instance(input_value, node_input_types[input_name]):
''')],
 needs="a later call of the same function (second run, later parallel item) with a container of the same class whose elements have the wrong type",
 breaks="a non-conforming argument is passed on to the function",
 demo=MODHDR + '''
m = mod("""
from typing import List
CALLS = []
def total(xs: List[int]) -> int:
    CALLS.append(xs)
    return 1
""")
from hamilton.lifecycle import FunctionInputOutputTypeChecker
dr = driver.Builder().with_modules(m).with_adapters(base.DictResult(), FunctionInputOutputTypeChecker()).build()
assert dr.execute(["total"], inputs={"xs": [1, 2]}) == {"total": 1}
try:
    dr.execute(["total"], inputs={"xs": [1, "2"]})
except TypeError:
    pass
else:
    raise AssertionError("accepted")
'''),
dict(id="c23-tracer-first-graph", prop="C23", file="hamilton/plugins/h_opentelemetry.py",
 edits=[('''        self.graph = graph

''','''        if self.graph is None:
            self.graph = graph

''')],
 needs="one tracer used by drivers of two dataflows",
 breaks="runs of the second dataflow end with an error (or are traced with the versions of the first)",
 demo=MODHDR + '''
m1 = mod("""
def a(x: int) -> int:
    return x
""")
m2 = mod("""
def b(x: int) -> int:
    return x
""")
from opentelemetry.sdk.trace import TracerProvider
from hamilton.plugins.h_opentelemetry import OpenTelemetryTracer
t = OpenTelemetryTracer(tracer=TracerProvider().get_tracer("t"))
for m, n in ((m1, "a"), (m2, "b")):
    dr = driver.Builder().with_modules(m).with_adapters(base.DictResult(), t).build()
    assert dr.execute([n], inputs={"x": 1}) == {n: 1}
'''),
dict(id="c24-overwrite-in-place", prop="C24", file="hamilton/plugins/h_pandas.py",
 edits=[('''                columns_to_append[column] = kwargs[column]

            return df.assign(**columns_to_append)
''','''                columns_to_append[column] = kwargs[column]

            if all(column in df.columns for column in columns_to_append):
                # the shape stays the same, so no need to copy
                df.update(pd.DataFrame(columns_to_append))
                return df
            return df.assign(**columns_to_append)
''')],
 needs="a with_columns whose selected columns all exist in the frame already, which another node or a later run uses, too",
 breaks="the original frame is changed (and computed missing values do not replace old ones)",
 demo=MODHDR + '''
m = mod("""
import pandas as pd
from hamilton.plugins.h_pandas import with_columns
def raw() -> pd.DataFrame:
    return pd.DataFrame({"a": [1, 2], "b": [3, 4]})
def a(frame: pd.DataFrame) -> pd.Series:
    return frame["a"] * 10
@with_columns(a, on_input="frame", select=["a"], namespace="w")
def done(frame: pd.DataFrame) -> pd.DataFrame:
    return frame
""")
import pandas as pd
raw = pd.DataFrame({"a": [1, 2], "b": [3, 4]})
dr = driver.Builder().with_modules(m).build()
for _ in range(2):
    got = dr.execute(["done"], inputs={"frame": raw})["done"]
    assert list(got["a"]) == [10, 20], got
    assert list(raw["a"]) == [1, 2], raw
'''),
dict(id="c24-optional-pruned", prop="C24", file="hamilton/function_modifiers/recursive.py",
 edits=[('''        for dep in node_.input_types:
            if dep not in seen_nodes and dep in node_name_map:
                dep_node = node_name_map[dep]
''','''        for dep, (_, dependency_type) in node_.input_types.items():
            if dependency_type == node.DependencyType.OPTIONAL:
                # not needed to compute the node
                continue
            if dep not in seen_nodes and dep in node_name_map:
                dep_node = node_name_map[dep]
''')],
 needs="a selected column function with a default parameter that another, not selected function of the group provides",
 breaks="the function gets its default instead of the computed column",
 demo=MODHDR + '''
m = mod("""
import pandas as pd
from hamilton.plugins.h_pandas import with_columns
def scale(a: pd.Series) -> pd.Series:
    return a * 10
def c(a: pd.Series, scale: pd.Series = 0) -> pd.Series:
    return a + scale
@with_columns(scale, c, columns_to_pass=["a"], select=["c"], namespace="w")
def done(frame: pd.DataFrame) -> pd.DataFrame:
    return frame
""")
import pandas as pd
raw = pd.DataFrame({"a": [1, 2]})
dr = driver.Builder().with_modules(m).build()
got = dr.execute(["done"], inputs={"frame": raw})["done"]
assert list(got["c"]) == [11, 22], got
'''),
dict(id="c25-empty-frame", prop="C25", file="hamilton/base.py",
 edits=[('''            if isinstance(output, pd.DataFrame):
                if logger.isEnabledFor(logging.DEBUG):
                    logger.debug(
                        f"Unpacking''','''            if isinstance(output, pd.DataFrame):
                if output.empty:
                    continue  # there is nothing to unpack
                if logger.isEnabledFor(logging.DEBUG):
                    logger.debug(
                        f"Unpacking''')],
 needs="a dataframe without rows requested together with another output",
 breaks="the columns of the empty dataframe are missing from the result",
 demo=MODHDR + '''
m = mod("""
import pandas as pd
def f() -> pd.DataFrame:
    return pd.DataFrame({"u": [], "w": []}, index=pd.Index([], dtype="int64"))
def s() -> pd.Series:
    return pd.Series([1, 2], index=[3, 4])
""")
dr = driver.Builder().with_modules(m).with_adapters(base.PandasDataFrameResult()).build()
got = dr.execute(["f", "s"])
assert list(got.columns) == ["f.u", "f.w", "s"], got.columns
'''),
dict(id="c25-empty-index", prop="C25", file="hamilton/base.py",
 edits=[('''            if isinstance(
                output_value, (pd.DataFrame, pd.Series)
            ):  # if it has an index -- let's grab it's type
''','''            if isinstance(output_value, (pd.DataFrame, pd.Series)) and len(
                output_value
            ):  # if it has an index -- let's grab it's type
''')],
 needs="the strict index type builder, and an output that is an empty series or frame whose index has another type",
 breaks="a frame is made although the index types do not match (or refused although they do)",
 demo=MODHDR + '''
m = mod("""
import pandas as pd
def f() -> pd.Series:
    return pd.Series([], index=pd.DatetimeIndex([]), dtype=float)
def s() -> pd.Series:
    return pd.Series([1, 2], index=["p", "q"])
""")
dr = driver.Builder().with_modules(m).with_adapters(base.StrictIndexTypePandasDataFrameResult()).build()
try:
    got = dr.execute(["f", "s"])
except ValueError as e:
    assert "index types" in str(e)
else:
    raise AssertionError(got)
'''),
]
