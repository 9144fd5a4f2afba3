#!/bin/bash
# mkwork.sh TREE OUT: a workspace of the modules of a copy of /repo
{ echo "go 1.22"; echo "use ("; for m in core functions/golang/battleroyale functions/golang/soloduel functions/golang/teamshooter matchmaker-example mmf mmf/server pkg/api/v2 pkg/pb/v2; do echo "	$1/$m"; done; echo ")"; } > "$2"
cp "$1/go.work.sum" "$2.sum"
