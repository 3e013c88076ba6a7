#!/bin/bash
# nothing to compile: check that the interpreter, flopy and the working tree import
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d); export MPLCONFIGDIR="$d" PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c 'from vmon import monitor; monitor.install(); from vmon import props, plan; assert set(props.PROPS)==set(plan.PLAN); print(len(props.PROPS), "monitors ready")'
rc=$?; rm -rf "$d"; exit $rc
