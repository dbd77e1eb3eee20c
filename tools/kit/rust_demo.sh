#!/bin/bash
# src/lib.rs of the current tree with a logging stand-in for the C++ side
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
PYTHONDONTWRITEBYTECODE=1 python3 "$D/rust_demo.py" src/lib.rs "$D/demo.rs" "$W/api.rs" || exit 0
rustc --edition 2021 -A warnings "$W/api.rs" -o "$W/demo" 2> "$W/err" || { cat "$W/err" >&2; echo "demo does not build"; exit 0; }
timeout 60 "$W/demo"
