#!/bin/bash
# run.sh check <property> | replay <file> | show <property> <case> | setup
# Builds the driver from /verif and runs it; the driver builds the simulated bab
# from the working tree of /repo. Nothing is kept outside a scratch directory,
# evidence/ and replays/.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOWORK=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
tmp=$(mktemp -d /tmp/babsim-run-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here" && go build -trimpath -o "$tmp/babsim" ./cmd/babsim) || { echo "error: building the driver"; exit 2; }
export BABSIM_VERIF="$here" BABSIM_REPO="${BABSIM_REPO:-/repo}" TMPDIR="$tmp"
"$tmp/babsim" "$@"
