#!/bin/bash
# Builds the simulation harness against /repo's current working tree.
set -e
cd "$(dirname "$0")/.."
. bin/env.sh
export CARGO_TARGET_DIR="$PWD/sim/target"
mkdir -p replays evidence
cd sim
if ! cargo build --offline -q -p dst > "$CARGO_TARGET_DIR.log" 2>&1; then
  grep -E '^error' -A12 "$CARGO_TARGET_DIR.log" | head -80 >&2
  exit 3
fi
