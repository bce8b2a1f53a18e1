exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c01-second-override", prop="C01", file="hamilton/graph.py",
 edits=[('''    functions = sum([find_functions(module) for module in modules], [])
''','''    functions = sum([find_functions(module) for module in modules], [])
    overridden = set()  # names a later module has already replaced
'''),('''            nodes[n.name] = n
    # add dependencies -- now''','''            if n.name in overridden:
                continue
            if n.name in nodes:
                overridden.add(n.name)
            nodes[n.name] = n
    # add dependencies -- now''')],
 needs="three modules that define the same function, with module overrides allowed",
 breaks="the second module's definition wins instead of the last one's",
 demo=MODHDR + '''
ms = [mod(f"""
def a(x: int) -> int:
    return x + {k}
def b{k}(a: int) -> int:
    return a
""", f"dm{k}") for k in (1, 2, 3)]
dr = driver.Builder().with_modules(*ms).allow_module_overrides().build()
assert dr.execute(["a", "b1"], inputs={"x": 10}) == {"a": 13, "b1": 13}
'''),
dict(id="c01-tighten-once", prop="C01", file="hamilton/graph.py",
 edits=[('''                # replace the current type with this "tighter" type.
                required_node.set_type(param_type)
''','''                # replace the current type with this "tighter" type.
                if not required_node.depended_on_by[1:]:
                    required_node.set_type(param_type)
''')],
 needs="an outside input that three functions ask for, each with a tighter type than the one before",
 breaks="the input keeps a type too loose, a later function with an incompatible type is accepted",
 demo=MODHDR + '''
m = mod("""
from typing import Union
def a(x: Union[int, str]) -> int:
    return 1
def b(x: int) -> int:
    return 1
def c(x: bool) -> int:
    return 1
""")
dr = driver.Builder().with_modules(m).build()
ty = {v.name: v.type for v in dr.list_available_variables()}
assert ty["x"] is bool, ty["x"]
'''),
dict(id="c14-self-cycle", prop="C14", file="hamilton/graph.py",
 edits=[('''        for d in n.dependencies:
            digraph.add_edge(d.name, n.name)
    return digraph
''','''        for d in n.dependencies:
            if not digraph.has_edge(n.name, d.name) and d is not n or d.dependencies == [n]:
                digraph.add_edge(d.name, n.name)
    return digraph
''')],
 needs="has_cycles() on a function that depends on itself and on something else, or on a cycle of two with other dependencies",
 breaks="the cycle is not reported",
 demo=MODHDR + '''
m = mod("""
def a(a: int, x: int) -> int:
    return x
def b(a: int) -> int:
    return a
""")
dr = driver.Builder().with_modules(m).build()
assert dr.has_cycles(["b"]) is True
'''),
dict(id="c14-any-value-shortcut", prop="C14", file="hamilton/node.py",
 edits=[('''        if value is None:
            continue
        node_tag_value''','''        if value is None:
            return all(k in tags for k in query_dict)
        node_tag_value''')],
 needs="a filter that asks for any value of one tag and, after it, for a particular value of another tag the node has with a different value",
 breaks="the node is listed although the second condition does not hold",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import tag
@tag(team="x", owner="me")
def a() -> int:
    return 1
@tag(team="y", owner="you")
def b() -> int:
    return 1
""")
dr = driver.Builder().with_modules(m).build()
assert [v.name for v in dr.list_available_variables(tag_filter={"owner": None, "team": "y"})] == ["b"]
'''),
dict(id="c20-copy-shares-modules", prop="C20", file="hamilton/driver.py",
 edits=[('''        new_builder.modules = self.modules.copy()
''','''        new_builder.modules = self.modules or []
''')],
 needs="a builder with modules that is copied, and modules added to either of the two afterwards",
 breaks="a module added to the copy is added to the original as well",
 demo=MODHDR + '''
m1 = mod("""
def a() -> int:
    return 1
""", "dm1")
m2 = mod("""
def b() -> int:
    return 2
""", "dm2")
b1 = driver.Builder().with_modules(m1)
b2 = b1.copy().with_modules(m2)
assert [v.name for v in b1.build().list_available_variables()] == ["a"]
assert sorted(v.name for v in b2.build().list_available_variables()) == ["a", "b"]
'''),
dict(id="c20-config-alias", prop="C20", file="hamilton/driver.py",
 edits=[('''        self.config.update(config)
        return self
''','''        self.config = {**self.config, **config} if self.config else config
        return self
''')],
 needs="the dictionary passed to the first with_config() is changed by its owner before build()",
 breaks="the builder follows changes of the caller's dictionary",
 demo=MODHDR + '''
m = mod("""
def a(c: int) -> int:
    return c
""")
mine = {"c": 1}
b = driver.Builder().with_modules(m).with_config(mine)
mine["c"] = 2
assert b.build().execute(["a"]) == {"a": 1}
'''),
]
SEEDS += [
dict(id="c19-same-namespace", prop="C19", file="hamilton/function_modifiers/recursive.py",
 edits=[('''    return f"{namespace}.{node_name}"
''','''    if node_name.startswith(namespace + "."):
        return node_name  # already in the namespace
    return f"{namespace}.{node_name}"
''')],
 needs="a subdag inside a subdag where both have the same name (namespace)",
 breaks="nodes of the inner namespace are not put into the outer one: inner and outer nodes meet",
 demo=MODHDR + '''
m = mod("""
from hamilton.function_modifiers import subdag, source, value
def leaf(x: int) -> int:
    return x
class inner:
    def part(leaf: int) -> int:
        return leaf
def mk():
    @subdag(leaf, inputs={"x": value(5)}, namespace="part")
    def mid(leaf: int) -> int:
        return leaf * 10
    return mid
mid = mk()
mid.__module__ = __name__
@subdag(mid, leaf, inputs={"x": value(7)}, namespace="part")
def top(mid: int, leaf: int) -> int:
    return mid + leaf
""")
names = None
from hamilton.function_modifiers import base as fmb
from hamilton import graph
ns = sorted(n.name for n in fmb.resolve_nodes(m.top, {}))
assert len(ns) == len(set(ns)), ns
assert "part.part.leaf" in ns and "part.leaf" in ns, ns
'''),
]
