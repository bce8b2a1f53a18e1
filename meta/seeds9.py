exec(open("/verif/meta/seeds2.py").read().split("SEEDS = [")[0])
SEEDS = [
dict(id="c26-json-index", prop="C26", file="hamilton/plugins/pandas_extensions.py",
 edits=[('''        if self.double_precision is not None:
            kwargs["double_precision"] = self.double_precision
        if self.force_ascii is not None:
            kwargs["force_ascii"] = self.force_ascii
        if self.index is not None:
            kwargs["index"] = self.index
''','''        if self.double_precision is not None:
            kwargs["double_precision"] = self.double_precision
        if self.force_ascii is not None:
            kwargs["force_ascii"] = self.force_ascii
        if self.index:
            kwargs["index"] = self.index
''')],
 needs="a json file saved with index=False",
 breaks="index=False is not passed on to pandas and the index is written",
 demo='''
import json, os, tempfile
import pandas as pd
from hamilton.plugins.pandas_extensions import PandasJsonWriter
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.json")
    PandasJsonWriter(filepath_or_buffer=p, orient="split", index=False).save_data(pd.DataFrame({"a": [1, 2]}))
    assert "index" not in json.load(open(p)), open(p).read()
'''),
dict(id="c26-keep-inode", prop="C26", file="hamilton/io/default_data_loaders.py",
 edits=[('''    def save_data(self, data: Any) -> Dict[str, Any]:
        with open(self.path, "w", encoding=self.encoding) as f:
            f.write(data)
''','''    def save_data(self, data: Any) -> Dict[str, Any]:
        # write existing files in place so that links and permissions stay as they are
        mode = "r+" if pathlib.Path(self.path).exists() else "w"
        with open(self.path, mode, encoding=self.encoding) as f:
            f.write(data)
''')],
 needs="a text file overwritten by a shorter text",
 breaks="the end of the old text stays in the file and is loaded",
 demo='''
import os, tempfile
from hamilton.io.default_data_loaders import RawFileDataLoader, RawFileDataSaver
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.txt")
    RawFileDataSaver(path=p).save_data("a longer text")
    RawFileDataSaver(path=p).save_data("short")
    assert RawFileDataLoader(path=p).load_data(str)[0] == "short"
'''),
]
