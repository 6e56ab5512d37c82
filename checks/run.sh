#!/bin/bash
# checks/run.sh ID quick|thorough
cd "$(dirname "$0")/.." || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
PY=/opt/veriftools/pyvenv/bin/python
[ -x $PY ] || PY=python3
exec $PY checks/check.py "$1" "${2:-${VERIF_TIER:-quick}}"
