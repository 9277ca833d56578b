#!/bin/bash
# Build the monitors against /repo's current working tree, then run one property's check.
# usage: run.sh <property> [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
[ "$1" = C25 ] && exec python3 "$here/tools/sanitize.py" "$VERIF_TIER"
parts=main
bin="$here/target/main/release/ppp-monitor"
case "$1" in
  # Stack use is measured on code that is not optimised: nothing is inlined or turned into loops.
  C13) parts=unopt; bin="$here/target/unopt/unopt/ppp-monitor" ;;
  C26) parts="main json" ;;
esac
"$here/build.sh" $parts || { echo "build failed" >&2; exit 2; }
exec "$bin" "$1" "$VERIF_TIER"
