#!/bin/bash
# Builds the framework once, offline; every check builds again from /repo's tree of its day.
set -eu
cd "$(dirname "$0")"
. ./env.sh
S=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'rm -rf "$S"' EXIT
cd harness
go vet ./kit ./docs
go build -o "$S/check" ./cmd/check
"$S/check" -list
