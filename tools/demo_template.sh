#!/bin/bash
# run with cwd /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
cd "$repo"
tmp=$(mktemp -d)
printf '{"Replace":{"%s/PKGDIR/zz_demo_test.go":"%s/demo_test.go"}}' "$repo" "$here" > "$tmp/ov.json"
go test -vet=off -count=1 -overlay "$tmp/ov.json" -run '^TestZZDemo$' ./PKGDIR
rc=$?
find "$tmp" -delete
exit $rc
