#!/bin/bash
# Builds the harness once (warms the build cache) and parses the specification.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
"$V/bin/buildh.sh" "$t/h"
cp "$V"/spec/* "$t"/
cd "$t"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "$t/log" 2>&1 || { cat "$t/log"; exit 1; }
done
echo ok
