#!/bin/bash
# Parse every specification module and make sure the interpreter can import the machinery.
cd "$(dirname "$0")" || exit 9
mkdir -p evidence/replay
set -e
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import vf.core, vf.registry; print('registry:', sorted(vf.registry.CHECKS))"
tmp="$(mktemp -d /tmp/vfsetup.XXXXXX)"
cp spec/*.tla "$tmp"/
cd "$tmp"
rc=0
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >out.txt 2>&1 || { cat out.txt; rc=1; }
done
rm -rf "$tmp"
exit $rc
