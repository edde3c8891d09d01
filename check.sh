#!/bin/bash
# check.sh PROPERTY quick|thorough: build the simulator from /repo's working tree and check one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/wegocheck.XXXXXX")
trap 'rm -rf "$tmp"' EXIT
if ! bash "$here/sim/build.sh" "$tmp/sim" >"$tmp/log" 2>&1; then
	cat "$tmp/log" >&2
	echo "the simulator does not build from this tree" >&2
	exit 2
fi
VERIF_DIR=$here "$tmp/sim" check "$1" "${2:-quick}"
