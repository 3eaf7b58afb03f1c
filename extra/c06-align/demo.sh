#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -r -f "$d"' EXIT
export GOFLAGS= GOPROXY=off GOCACHE=${GOCACHE:-$d/cache} 
echo "{\"Replace\":{\"$PWD/zz_demo/main.go\":\"$here/main.go\"}}" > "$d/ov.json"
go build  -overlay "$d/ov.json" -o "$d/demo" ./zz_demo || exit 9
 "$d/demo"
