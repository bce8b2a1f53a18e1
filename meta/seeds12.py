exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c01-validator-class", prop="C01", file="hamilton/lifecycle/base.py",
 edits=[('''        for adapter in self.sync_validators[validator_name]:
            is_valid, message''','''        # a validator that was given more than once is only asked once
        validators = {type(adapter): adapter for adapter in self.sync_validators[validator_name]}
        for adapter in validators.values():
            is_valid, message''')],
 needs="two static validators of one class with different arguments, of which one objects",
 breaks="only one of the validators of a class is asked, so a graph another one objects to is built",
 demo='''
from hamilton import ad_hoc_utils, driver, lifecycle


class Without(lifecycle.StaticValidator):
    def __init__(self, name):
        self.name = name

    def run_to_validate_node(self, *, node, **future_kwargs):
        return (node.name != self.name, f"{node.name} is not allowed")


m = ad_hoc_utils.module_from_source("def a() -> int:\\n    return 1\\n\\n\\ndef b(a: int) -> int:\\n    return a\\n")
for names in (["a", "z"], ["z", "a"], ["b", "y", "z"], ["y", "z", "b"]):
    try:
        driver.Builder().with_modules(m).with_adapters(*map(Without, names)).build()
    except lifecycle.base.ValidationException:
        continue
    raise SystemExit(f"built although one of {names} objects")
'''),
]
