#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness and decides one property.
here="$(cd "$(dirname "$0")/.." && pwd)"
"$here/bin/build.sh" || { echo "the harness does not build" >&2; exit 3; }
. "$here/bin/env.sh"
tier="${2:-${VERIF_TIER:-quick}}"
exec "$here/sim/target/debug/dst" check "$1" "$tier" "${VERIF_SEED:-1}" "$here"
