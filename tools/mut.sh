#!/bin/bash
# mut.sh FILE SED-EXPR CHECK... : run checks against a mutated scratch copy
set -e
D=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. $D/; rm -rf $D/_build
sed -i "$2" $D/$1
if git -C $D diff --quiet; then echo "NO CHANGE"; rm -rf "$D"; exit 9; fi
shift 2
cd "$(dirname "$0")/.."
for c in "$@"; do echo "== $c"; TRAJOPT_REPO=$D python3 check.py $c quick 2>&1 | cut -c1-300 | tail -6; done
rm -rf "$D"
