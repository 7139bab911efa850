#!/bin/bash
# Builds the simulator and k at /repo's working tree (offline).
here="$(cd "$(dirname "$0")" && pwd)"
bin="$(bash "$here/harness/build.sh")" || { echo "setup: build failed" >&2; exit 2; }
"$bin" list
