#!/bin/bash
# Nothing is built ahead: every check generates code with /repo's current tree and compiles it itself.
# This only says early when a tool is missing.
cd "$(dirname "$0")/.." || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
rc=0
for t in gcc-13 g++-13 clang go rustc dotnet node zig; do
    command -v $t >/dev/null || { echo "missing: $t"; rc=1; }
done
[ -x /opt/veriftools/node/node_modules/.bin/tsc ] || { echo "missing: tsc"; rc=1; }
PY=/opt/veriftools/pyvenv/bin/python
$PY -c 'import sys; sys.path.insert(0, "lib"); from bv.checks import wire, text' || rc=1
mkdir -p evidence
exit $rc
