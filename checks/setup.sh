#!/bin/bash
# Nothing is built ahead: every check builds the executor from /repo's tree.
# This makes sure that the tools are there and that the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
python3 -c 'import json, concurrent.futures'
. /opt/vp/env.sh 2>/dev/null || true
"${GO:-go}" version
out=$(mktemp)
for m in *.tla; do
  if ! java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$out" 2>&1 \
      || grep -q -e '^\*\*\* Errors' -e 'Fatal errors' -e 'Could not parse' "$out"; then
    echo "$m"; cat "$out"; rm -f "$out"; exit 1
  fi
done
rm -f "$out"
mkdir -p ../evidence ../build
echo ok
