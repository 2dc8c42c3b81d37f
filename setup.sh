#!/bin/bash
# Builds the harness once, which also shows that everything it needs is here. Each check builds it again from /repo.
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=mod CGO_ENABLED=1 GOWORK=off
work=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp harness/go.mod "$work/go.mod"
echo '{"Replace":{"/repo/go.mod":"'"$PWD"'/harness/overlay/tokucore.mod","/repo/go.sum":""}}' > "$work/overlay.json"
cd harness && go build -modfile="$work/go.mod" -overlay "$work/overlay.json" -o "$work/harness" . && "$work/harness" -list > /dev/null
