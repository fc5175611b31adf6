#!/bin/bash
# runseeds.sh all|own [ID...]: applies each planted bug to a scratch copy of
# /repo and runs the checks on it (all of them, or the bug's own property).
V=$(cd "$(dirname "$0")/.." && pwd)
mode=${1:-own}; shift
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
"$V/check.sh" build || exit 1
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for id in "$@"; do
	cp "$V/known_findings.txt" "$W/"; rm -rf "$W/r"; cp -a /repo "$W/r"
	git -C "$W/r" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$V/seeded/$id/meta.json")
	cs=$p
	[ "$mode" = all ] && cs=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
	hit=
	for c in $cs; do
		GOSSTATIC_REPO="$W/r" GOSSTATIC_VERIF="$W" "$V/tool/bin/gosstatic" check "$c" quick >"$W/out" 2>"$W/err"
		rc=$?
		[ $rc -ne 0 ] && hit="$hit $c"
		[ $rc -gt 1 ] && hit="$hit(rc$rc)"
		[ "$c" = "$p" ] && { msg=$(grep -v '^VIOLATION' "$W/out" | grep -m1 -iE 'violat|undecided|:' | cut -c1-200); ownrc=$rc; }
	done
	if [ "$ownrc" = 0 ]; then r=MISSED; else r=caught; fi
	echo "$id [$p] $r by:$hit :: $msg"
done
