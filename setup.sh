#!/bin/bash
# nothing to build: check that the tools are there and that the specification parses
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
cd spec
for m in Trace.tla MC_*.tla; do
  [ -e "$m" ] || continue
  java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$d/out" 2>&1 || { cat "$d/out"; exit 1; }
done
echo setup ok
