#!/bin/bash
# check.sh Cxx [quick|thorough] | check.sh Cxx --replay FILE
# Builds the harness against /repo's working tree and decides one property. See DESIGN.md.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS=-mod=mod CGO_ENABLED=1 GOWORK=off
work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
race=
case "$id" in C28|C30) race=-race ;; esac
# The harness' module files are copied so that the build never rewrites committed files.
# (VERIF_REPO points the build at a scratch copy while developing; the registered commands use /repo.)
repo=${VERIF_REPO:-/repo}
sed "s#=> /repo#=> $repo#" "$verif/harness/go.mod" > "$work/go.mod"
cat > "$work/overlay.json" <<J
{"Replace":{"$repo/go.mod":"$verif/harness/overlay/tokucore.mod","$repo/go.sum":""}}
J
(cd "$verif/harness" && go build $race -modfile="$work/go.mod" -overlay "$work/overlay.json" -o "$work/harness" .) || { echo "cannot build the harness" >&2; exit 2; }
if [ "$tier" = --replay ]; then
    "$work/harness" -prop "$id" -verif "$verif" -work "$work" -replay "$3"
    exit $?
fi
evid=${VERIF_OUT:-$verif}
"$work/harness" -prop "$id" -tier "$tier" -seed "$seed" -verif "$verif" -evidence "$evid/evidence" -work "$work"
