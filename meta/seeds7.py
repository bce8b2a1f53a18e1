exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c12-warn-once", prop="C12", file="hamilton/data_quality/base.py",
 edits=[('''    if not validation_result.passes:
        logger.warning(_create_error_string(node_name, validation_result, validator))
''','''    if not validation_result.passes and (node_name, validator) not in _reported:
        _reported.add((node_name, validator))
        logger.warning(_create_error_string(node_name, validation_result, validator))
'''), ('''class DataValidationError(Exception):
    pass
''','''class DataValidationError(Exception):
    pass


# what we already warned about, so logs do not fill up when a driver is executed repeatedly
_reported = set()
''')],
 needs="a check of importance warn that fails in a later run on the same driver (or for a later item of a parallel block)",
 breaks="bad data passes without a warning after the first time",
 demo=MODHDR + '''
import logging
m = mod("""
from hamilton.function_modifiers import check_output
@check_output(range=(0, 10))
def a(x: int) -> int:
    return x
""")
got = []
class H(logging.Handler):
    def emit(self, r):
        if r.levelno == logging.WARNING and "range_validator" in r.getMessage():
            got.append(r.getMessage())
logging.getLogger("hamilton").addHandler(H())
dr = driver.Builder().with_modules(m).build()
for x in (11, 5, 99):
    assert dr.execute(["a"], inputs={"x": x}) == {"a": x}
assert len(got) == 2, got
'''),
dict(id="c12-same-name", prop="C12", file="hamilton/function_modifiers/validation.py",
 edits=[('''            for validator_node in validator_nodes:
                validator: dq_base.DataValidator = validator_name_map[validator_node.name]
                validation_result: dq_base.ValidationResult = kwargs[validator_node.name]
''','''            validators_by_name = {v.name(): v for v in validator_name_map.values()}
            for name, validator in validators_by_name.items():
                validation_result: dq_base.ValidationResult = kwargs[f"{node_.name}_{name}"]
''')],
 needs="several custom validators of the same name on one function, of which only a later one fails",
 breaks="the later validators are left out: bad data is accepted",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import check_output_custom
from hamilton.data_quality import base as dq
class V(dq.DataValidator):
    def __init__(self, lim):
        super().__init__("fail")
        self.lim = lim
    def applies_to(self, datatype):
        return True
    def description(self):
        return "limit"
    @classmethod
    def name(cls):
        return "limit"
    def validate(self, dataset):
        return dq.ValidationResult(passes=dataset <= self.lim, message=str(self.lim))
@check_output_custom(V(30), V(20), V(10))
def a(x: int) -> int:
    return x
""")
from hamilton.data_quality import base as dqb
dr = driver.Builder().with_modules(m).build()
assert dr.execute(["a"], inputs={"x": 5}) == {"a": 5}
for x in (15, 25, 35):
    try:
        dr.execute(["a"], inputs={"x": x})
    except dqb.DataValidationError:
        continue
    raise AssertionError(x)
'''),
dict(id="c12-std-population", prop="C12", file="hamilton/data_quality/default_validators.py",
 edits=[('''        standard_dev = data.std()
''','''        standard_dev = data.to_numpy().std() if len(data) > 1 else data.std()
''')],
 needs="a series whose limit lies between its population and its sample standard deviation, or one with missing values",
 breaks="data that exceeds the limit is accepted",
 demo=MODHDR + '''
import pandas as pd
from hamilton.data_quality import base as dqb
m = mod("""
import pandas as pd
from hamilton.function_modifiers import check_output
@check_output(max_standard_dev=1.2, importance="fail")
def a(x: pd.Series) -> pd.Series:
    return x
""")
dr = driver.Builder().with_modules(m).build()
for xs, ok in (([1.0, 3.0], False), ([1.0, 2.0, 3.0], True), ([1.0, 2.0, None], True)):
    try:
        dr.execute(["a"], inputs={"x": pd.Series(xs)})
        r = True
    except dqb.DataValidationError:
        r = False
    assert r == ok, (xs, r)
'''),
]
