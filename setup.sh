#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC and the checks import /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
for m in spec/*.tla; do :; done
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY spec/Dataflow.tla >/dev/null || exit 1
/opt/venv/bin/python -c "import hamilton" || exit 1
echo setup ok
