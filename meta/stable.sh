#!/bin/bash
# stable.sh ID...: do the repository's main tests (tests/) still pass with the planted change?  (scratch copy)
for ID in "$@"; do
W=$(mktemp -d /tmp/vp-st.XXXXXX)
cp -a /repo $W/r && git -C $W/r apply /verif/seeded/$ID/patch.diff
( cd $W/r && HOME=$W TMPDIR=$W PYTHONPATH=$W/r PYTHONHASHSEED=0 MPLBACKEND=Agg timeout 500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 -W ignore -n 8 tests --junitxml=$W/o.xml -o junit_family=xunit2 >/dev/null 2>&1 </dev/null )
/opt/venv/bin/python - $ID $W/o.xml <<'PY'
import json, sys, xml.etree.ElementTree as E
b = json.load(open("/opt/vp/BASELINE.json"))
names = set(b["stable"]) if isinstance(b, dict) and "stable" in b else set(x for v in (b.values() if isinstance(b, dict) else [b]) if isinstance(v, list) for x in v)
bad = []
for c in E.parse(sys.argv[2]).getroot().iter("testcase"):
    if any(k.tag in ("failure", "error") for k in c):
        i = c.get("classname") + "::" + c.get("name")
        if i in names or not names: bad.append(i)
print(sys.argv[1], "tests:", "PASS" if not bad else f"FAIL {len(bad)} {bad[:4]}")
PY
rm -rf "$W"
done
