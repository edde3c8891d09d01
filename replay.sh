#!/bin/bash
# replay.sh FILE: build the simulator from /repo's working tree and repeat a recorded violation.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/wegocheck.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
bash "$here/sim/build.sh" "$tmp/sim" >"$tmp/log" 2>&1 || { cat "$tmp/log" >&2; exit 2; }
VERIF_DIR=$here "$tmp/sim" replay "$1"
