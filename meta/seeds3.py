exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c16-fill-none-field", prop="C16", file="hamilton/function_modifiers/expanders.py",
 edits=[('''            def dict_generator(*args, **kwargs):
                dict_generated = fn(*args, **kwargs)
                if self.fill_with is not None:
                    for field in self.fields:
                        if field not in dict_generated:
                            dict_generated[field] = self.fill_with
                return dict_generated''','''            def dict_generator(*args, **kwargs):
                dict_generated = fn(*args, **kwargs)
                if self.fill_with is not None:
                    for field in self.fields:
                        if dict_generated.get(field) is None:
                            dict_generated[field] = self.fill_with
                return dict_generated''')],
 needs="@extract_fields(fill_with=...) on a function that returns one of the fields with the value None",
 breaks="a field that the function did return (as None) is replaced by the fill value",
 demo=MODHDR + '''
m = mod("""
from typing import Any, Dict
from hamilton.function_modifiers import extract_fields
@extract_fields({"a": Any, "b": Any, "c": Any}, fill_with=7)
def fields() -> Dict[str, Any]:
    return {"a": None, "b": 3}
""")
dr = driver.Builder().with_modules(m).build()
assert dr.execute(["a", "b", "c"]) == {"a": None, "b": 3, "c": 7}
'''),
dict(id="c16-literal-from-partial", prop="C16", file="hamilton/function_modifiers/expanders.py",
 edits=[('''                        # If the node is specified by `value`, then we get the literal value (no need for kwargs)
                        new_kwargs[node_input] = literal_dependencies[node_input].value''','''                        # If the node is specified by `value`, then it is already bound by the partial below
                        new_kwargs[node_input] = kwargs[node_input]''')],
 needs="a parameterisation in which one parameter is bound to a value and another one to a source that has the name of the first",
 breaks="the parameter bound to a value receives the upstream value instead",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import parameterize, source, value
def a() -> int:
    return 100
@parameterize(x={"a": value(5), "b": source("a")}, y={"a": source("a"), "b": value(6)})
def f(a: int, b: int) -> int:
    return 1000 * a + b
""")
dr = driver.Builder().with_modules(m).build()
assert dr.execute(["x", "y"]) == {"x": 5100, "y": 100006}
'''),
dict(id="c17-skipped-step-counted", prop="C17", file="hamilton/function_modifiers/macros.py",
 edits=[('''        if applicable.resolves(config):
            fn_name = applicable.fn.__name__
            postfix''','''        fn_name = applicable.fn.__name__
        fn_count[fn_name] += 0
        if not applicable.resolves(config):
            fn_count[fn_name] += 1
        else:
            postfix''')],
 needs="a pipe that applies the same helper more than once, an earlier application being switched off by the configuration",
 breaks="the node of the remaining step is called with_f_1 instead of with_f, so whoever refers to it finds nothing",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import pipe_output, step, value
def _inc(x: int, y: int) -> int:
    return x + y
@pipe_output(step(_inc, y=1).when(a=1), step(_inc, y=10))
def f(z: int) -> int:
    return z
""")
dr = driver.Builder().with_modules(m).with_config({"a": 2}).build()
r = dr.execute(["f", "f.with_inc"], inputs={"z": 5})
assert r == {"f": 15, "f.with_inc": 15}, r
'''),
dict(id="c17-shared-step-conditions", prop="C17", file="hamilton/function_modifiers/macros.py",
 edits=[('''        """Helper function for the .when* group"""
        return Applicable(
            fn=self.fn,
            _resolvers=self.resolvers + list(additional_resolvers),''','''        """Helper function for the .when* group"""
        self.resolvers.extend(additional_resolvers)
        return Applicable(
            fn=self.fn,
            _resolvers=self.resolvers,''')],
 needs="one step object that is refined by two different conditions and used in both forms",
 breaks="the conditions of the two uses pile up on each other: a step that should run is skipped",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import pipe_input, step
def _inc(x: int, y: int) -> int:
    return x + y
base = step(_inc, y=1)
@pipe_input(base.when(a=1).named("one"), base.when(a=2).named("two"))
def f(z: int) -> int:
    return z * 10
""")
for a, want in ((1, 60), (2, 60), (3, 50)):
    dr = driver.Builder().with_modules(m).with_config({"a": a}).build()
    assert dr.execute(["f"], inputs={"z": 5}) == {"f": want}, a
'''),
dict(id="c18-when-not-in-any", prop="C18", file="hamilton/function_modifiers/configuration.py",
 edits=[('''            return all(
                configuration.get(key) not in value for key, value in key_value_group_pairs.items()
            )''','''            return not all(
                configuration.get(key) in value for key, value in key_value_group_pairs.items()
            )''')],
 needs="when_not_in with more than one key, one of which is in its list and one of which is not",
 breaks="an implementation that the configuration excludes is used",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import config
@config.when_not_in(a=[1], b=[1])
def f__new() -> int:
    return 1
@config.when_in(a=[1])
def f__old() -> int:
    return 2
""")
assert driver.Builder().with_modules(m).with_config({"a": 1, "b": 2}).build().execute(["f"]) == {"f": 2}
'''),
dict(id="c18-resolve-memo", prop="C18", file="hamilton/function_modifiers/delayed.py",
 edits=[('''        for key in self._optional_config:
            if key in config:
                kwargs[key] = config[key]
        return self.decorate_with(**kwargs)''','''        kwargs.update(self._optional_config)
        for key in self._optional_config:
            if key in config:
                kwargs[key] = self._optional_config[key] = config[key]
        return self.decorate_with(**kwargs)''')],
 needs="a @resolve with an optional configuration key, built once with the key and later, in the same process, without it",
 breaks="the later build uses the configuration value of the earlier one instead of the declared default",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import resolve, ResolveAt, inject, value
@resolve(when=ResolveAt.CONFIG_AVAILABLE, decorate_with=lambda k=3: inject(x=value(k)))
def f(x: int) -> int:
    return x
""")
P = {"hamilton.enable_power_user_mode": True}
for cfg, want in (({}, 3), ({"k": 8}, 8), ({}, 3)):
    assert driver.Builder().with_modules(m).with_config({**P, **cfg}).build().execute(["f"]) == {"f": want}
'''),
dict(id="c19-inputs-leak", prop="C19", file="hamilton/function_modifiers/recursive.py",
 edits=[('''        for key, parameterization in self.parameterization.items():
            subdag_generators.append(
                subdag(
                    *self.load_from,
                    inputs={**self.inputs, **parameterization.get("inputs", {})},''','''        inputs = dict(self.inputs)
        for key, parameterization in self.parameterization.items():
            inputs.update(parameterization.get("inputs", {}))
            subdag_generators.append(
                subdag(
                    *self.load_from,
                    inputs=dict(inputs),''')],
 needs="a parameterized_subdag with shared inputs, one part overriding an input that a later part leaves at the shared value",
 breaks="the later part is computed with the override of the earlier one",
 demo=MODHDR + '''
inner = mod("def y(x: int) -> int:\\n    return x * 2\\n", "demo_inner")
m = mod("""
import demo_inner
from hamilton.function_modifiers import parameterized_subdag, value
@parameterized_subdag(demo_inner, inputs={"x": value(1)}, p={"inputs": {"x": value(10)}}, q={})
def f(y: int) -> int:
    return y
""")
assert driver.Builder().with_modules(m).build().execute(["p", "q"]) == {"p": 20, "q": 2}
'''),
]
