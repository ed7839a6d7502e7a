#!/bin/bash
# usage: check.sh <property-id> [quick|thorough]   or   check.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 9
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
pyc="$(mktemp -d /tmp/vfpyc.XXXXXX)"
export PYTHONPYCACHEPREFIX="$pyc"
/opt/venv/bin/python -W ignore -m vf.check "$@"
rc=$?
rm -rf "$pyc"
exit $rc
