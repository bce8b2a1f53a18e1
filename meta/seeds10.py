exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c27-decorators", prop="C27", file="hamilton/graph_types.py",
 edits=[('''        if not len(n.body):
            continue

        # check''','''        if not len(n.body):
            continue

        # only the outermost decorator makes the nodes
        n.decorator_list = n.decorator_list[:1]

        # check''')],
 needs="a function under two decorators of which the second is edited",
 breaks="the node's version stays the same and `hamilton diff` shows no edit",
 demo='''
from hamilton import ad_hoc_utils, driver
from hamilton.cli import commands
src = """
from hamilton.function_modifiers import tag, extract_fields

@tag(owner="me")
@extract_fields({"a": int, "b": %s})
def f(x: int) -> dict:
    return {"a": x, "b": x}
"""
v = [commands.version(driver.Builder().with_modules(ad_hoc_utils.module_from_source(src % t)).build())["nodes_hash"]["f"] for t in ("int", "float")]
assert v[0] != v[1]
'''),
dict(id="c27-subdirectory", prop="C27", file="hamilton/cli/logic.py",
 edits=[('''["git", "show", f"{git_reference}:{git_relative_path}"],''','''["git", "show", f"{git_reference}:./{git_relative_path}"],''')],
 needs="`hamilton diff` run in a subdirectory of the git repository",
 breaks="the reference is looked for in the wrong place and the diff fails",
 demo='''
import os, pathlib, subprocess, tempfile
from hamilton.cli import commands
with tempfile.TemporaryDirectory() as d:
    d = os.path.realpath(d)
    g = lambda *a: subprocess.run(["git", "-C", d, "-c", "user.name=v", "-c", "user.email=v@v", *a], check=True, capture_output=True)
    g("init", "-q")
    sub = pathlib.Path(d) / "sub"
    sub.mkdir()
    p = sub / "flow.py"
    p.write_text("def a(x: int) -> int:\\n    return x\\n")
    g("add", "-A"); g("commit", "-q", "-m", "c")
    p.write_text("def a(x: int) -> int:\\n    return x + 1\\n\\n\\ndef b(a: int) -> int:\\n    return a\\n")
    old = os.getcwd()
    for where in (d, str(sub)):
        os.chdir(where)
        try:
            r = commands.diff(commands.build([p]), [p])
        finally:
            os.chdir(old)
        assert list(r["current_only"]) == ["b"] and "a" in r["edit"], r
'''),
]
