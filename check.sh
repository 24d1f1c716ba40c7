#!/bin/bash
# check.sh build | check.sh <property> [engine flags]: builds the symbolic executor
# (engine/) when needed and decides one property on /repo's current tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off GOWORK=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT GOOS GOARCH
mkdir -p "$here/bin"
(cd "$here/engine" && go build -o "$here/bin/symgo.$$" . && mv -f "$here/bin/symgo.$$" "$here/bin/symgo") || { echo "cannot build the engine"; exit 2; }
[ "${1:-}" = build ] && exit 0
prop=$1; shift
exec "$here/bin/symgo" -prop "$prop" -repo /repo -verif "$here" "$@"
