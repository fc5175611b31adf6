#!/bin/bash
# Usage: check.sh ID [quick|thorough] - build the analyser from source and
# decide one property on /repo's current tree.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1
unset GOROOT GOOS GOARCH
mkdir -p "$V/tool/bin" "$V/evidence"
if ! (cd "$V/tool" && go build -o bin/gosstatic.$$ . && mv -f bin/gosstatic.$$ bin/gosstatic); then
	echo "the analyser does not build" >&2
	exit 3
fi
[ "${1:-}" = build ] && exit 0
export GOSSTATIC_VERIF="$V"
"$V/tool/bin/gosstatic" check "$@" 2>"$V/evidence/$1.stderr"
rc=$?
head -c 4000 "$V/evidence/$1.stderr" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
	# no verdict: the property is undecided on this tree
	echo "the analysis ended without a verdict (status $rc), so $1 is undecided"
	echo "VIOLATION property=$1 replay=$V/evidence/$1.stderr"
	exit 1
fi
exit $rc
