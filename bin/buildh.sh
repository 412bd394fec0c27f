#!/bin/bash
# buildh.sh OUT [go build flags]: builds the harness from /repo's working tree.
set -e
. /opt/vp/env.sh 2>/dev/null || true
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
out=$1; shift
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{ printf '{"Replace":{'; sep=
  for f in "$V"/go/*.go; do printf '%s"%s/internal/verifh/%s":"%s"' "$sep" "$R" "$(basename "$f")" "$f"; sep=,; done
  printf '}}'; } > "$tmp/o.json"
cd "$R"
go build "$@" -overlay "$tmp/o.json" -o "$out" ./internal/verifh
