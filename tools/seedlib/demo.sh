#!/bin/bash
# Runs demo_test.go as a package of its own inside the tree in the current directory. Exit 0: the property held.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
python3 - "$here" "$PWD" >"$tmp/overlay.json" <<'P'
import glob, json, os, sys
print(json.dumps({"Replace": {os.path.join(sys.argv[2], "zzdemo", os.path.basename(f)): f for f in glob.glob(sys.argv[1] + "/*_test.go")}}))
P
go test -vet=off -c -o "$tmp/demo" -overlay "$tmp/overlay.json" ./zzdemo/ >"$tmp/out" 2>&1 &&
	(cd "$tmp" && ./demo -test.count=1 -test.timeout 200s) >>"$tmp/out" 2>&1
rc=$?
grep -E -a '^(---|ok|FAIL|panic:|\s+[a-z_]+_test.go:|.*/[a-z_]+_test.go:)' "$tmp/out" | head -30
[ $rc -ne 0 ] && tail -5 "$tmp/out"
exit $rc
