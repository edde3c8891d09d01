#!/bin/bash
# build.sh OUT: instrument /repo's working tree and build the simulator into OUT.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${WEGO_REPO:-/repo}
out=$1
scr=$(mktemp -d "${TMPDIR:-/tmp}/wegosim.XXXXXX")
trap 'rm -rf "$scr"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
(cd "$here/instr" && go build -o "$scr/instr" .)
"$scr/instr" -repo "$repo" -out "$scr"
# a second copy of the program: another process with variables of its own
cp -r "$scr/wego" "$scr/wego2"
find "$scr/wego2" -name '*.go' -exec sed -i 's#"github.com/ynqa/wego\(["/]\)#"github.com/ynqa/wego2\1#g' {} +
sed -i 's#^module github.com/ynqa/wego$#module github.com/ynqa/wego2#' "$scr/wego2/go.mod"
cp -r "$here/harness" "$scr/harness"
cp "$scr/go.sum" "$scr/harness/go.sum"
{
	echo "module harness"
	echo
	echo "go 1.23"
	echo
	echo "require github.com/ynqa/wego v0.0.0"
	echo "require github.com/ynqa/wego2 v0.0.0"
	echo "require simrt v0.0.0"
	sed -n '/^require (/,/^)/p' "$repo/go.mod"
	grep -E '^require [^(]' "$repo/go.mod" || true
	grep -E '^replace ' "$repo/go.mod" || true
	echo "replace github.com/ynqa/wego => $scr/wego"
	echo "replace github.com/ynqa/wego2 => $scr/wego2"
	echo "replace simrt => $here/simrt"
	echo "replace github.com/peterh/liner => $here/linerstub"
	echo "replace golang.org/x/sync => $scr/xsync"
} > "$scr/harness/go.mod"
cd "$scr/harness"
# The exported interface of an inner package may have changed: check what can be checked.
tags=
for try in 1 2 3 4; do
	if go build -mod=mod -trimpath -tags "$tags" -o "$out" . 2>"$scr/err"; then
		exit 0
	fi
	cat "$scr/err" >&2
	more=
	for f in tree corpus opts; do
		if grep -q "p_$f.go" "$scr/err"; then
			case ",$tags," in *,noapi_$f,*) ;; *) more="$more,noapi_$f" ;; esac
		fi
	done
	[ -n "$more" ] || exit 1
	tags="${tags}${more}"
	tags="${tags#,}"
done
exit 1
