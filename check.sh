#!/bin/bash
# check.sh <ID> [ksim check options]   decide one property on /repo's working tree
# check.sh replay <file>               re-execute a recorded violation
here="$(cd "$(dirname "$0")" && pwd)"
bin="$(bash "$here/harness/build.sh")" || { echo "check: build failed" >&2; exit 2; }
if [ "$1" = replay ]; then exec "$bin" replay "$2"; fi
id="$1"; shift
exec "$bin" check "$id" --verif "$here" --tier "${VERIF_TIER:-quick}" "$@"
