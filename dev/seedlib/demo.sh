#!/bin/bash
# Runs the demonstration beside this file against the om-core (and packages) of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
top=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
cp "$here/fakeredis.go.txt" "$t/fakeredis.go"; cp "$here/lib.go.txt" "$t/lib.go"; cp "$here/demo.go.txt" "$t/demo.go"
cat > "$t/overlay.json" <<X
{"Replace": {"$top/core/zzdemo/fakeredis/fakeredis.go": "$t/fakeredis.go", "$top/core/zzdemo/lib.go": "$t/lib.go", "$top/core/zzdemo/demo.go": "$t/demo.go"}}
X
cd "$top/core" || exit 3
go build -o "$t/om-core" . || exit 3
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
timeout 200 "$t/demo" "$t/om-core"
