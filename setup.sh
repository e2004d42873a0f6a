#!/bin/bash
# Builds the explorer once (warms the Go build cache); every check rebuilds it from /repo anyway.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX")
trap 'rm -rf -- "$scratch"' EXIT
cp -r mc "$scratch/mc"
( cd "$scratch/mc" && go build -o "$scratch/mcbin" . )
"$scratch/mcbin" list
