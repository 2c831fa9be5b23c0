#!/bin/bash
# Checks of the properties in properties.jsonl.
#
#   ./check.sh run C01        run the check (VERIF_SEED, VERIF_TIER=quick|thorough)
#   ./check.sh replay FILE    run one saved failing case again
#   ./check.sh build DIR      only build the check binaries into DIR
#
# The check binaries are built from the working tree of /repo (or of $REPO) every
# time, into a scratch directory that is removed afterwards.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${REPO:-/repo}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
    if [ -x "$d/go" ]; then PATH=$d:$PATH; break; fi
done
export PATH HOME=${HOME:-/root} GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOSUMDB=off CGO_ENABLED=1
unset GOOS GOARCH GOEXPERIMENT GODEBUG

scratch=$(mktemp -d "${TMPDIR:-/tmp}/morehttp-verif.XXXXXX") || exit 3
cleanup() { case $scratch in */morehttp-verif.*) rm -rf "$scratch" ;; esac; }
trap cleanup EXIT
trap 'exit 3' INT TERM

build() { # build OUTPUT [flags]
    local out=$1
    shift
    sed "s#=> /repo\$#=> $repo#" "$here/harness/go.mod" >"$scratch/go.mod"
    cp "$here/harness/go.sum" "$scratch/go.sum"
    (cd "$here/harness" && go build -modfile="$scratch/go.mod" -mod=readonly -buildvcs=false -o "$out" "$@" .) || {
        echo "ERROR: building the checks against $repo failed" >&2
        exit 3
    }
}

cmd=${1:-}
case $cmd in
run | replay)
    build "$scratch/check"
    export VERIF_ROOT=$here
    id=${2:?}
    if [ "$cmd" = replay ]; then
        id=$(sed -n 's/^ *"property": "\([A-Za-z0-9]*\)".*/\1/p' "$2" | head -n1)
    fi
    if [ "$("$scratch/check" needs "$id")" = race ]; then
        build "$scratch/check-race" -race
        export CHECK_RACE_BIN=$scratch/check-race
    fi
    bin=$scratch/check
    if [ "$cmd" = replay ]; then
        if [ -n "${CHECK_RACE_BIN:-}" ] && [ "$("$bin" israce "$2")" = race ]; then
            bin=$CHECK_RACE_BIN
            export GORACE="halt_on_error=1 exitcode=66" CHECK_REPEAT=${CHECK_REPEAT:-50}
        fi
    fi
    "$bin" "$cmd" "$2"
    rc=$?
    ;;
build)
    build "$2/check"
    build "$2/check-race" -race
    rc=0
    ;;
*)
    sed -n '2,8p' "$here/check.sh"
    rc=2
    ;;
esac
exit $rc
