#!/bin/bash
# Runs the demonstration beside this file against the packages of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
top=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false GOWORK="$t/go.work"
cp "$here/lib.go.txt" "$t/lib.go"; cp "$here/demo.go.txt" "$t/demo.go"
{
  echo "go 1.22"; echo "use ("
  for m in core functions/golang/battleroyale functions/golang/soloduel functions/golang/teamshooter matchmaker-example mmf mmf/server pkg/api/v2 pkg/pb/v2; do echo "	$top/$m"; done
  echo ")"
} > "$t/go.work"
[ -f "$top/go.work.sum" ] && cp "$top/go.work.sum" "$t/go.work.sum"
cat > "$t/overlay.json" <<X
{"Replace": {"$top/mmf/zzdemo/lib.go": "$t/lib.go", "$top/mmf/zzdemo/demo.go": "$t/demo.go"}}
X
cd "$top/mmf" || exit 3
go build -overlay "$t/overlay.json" -o "$t/demo" ./zzdemo || exit 3
timeout 200 "$t/demo"
