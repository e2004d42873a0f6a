#!/bin/bash
# developer loop: build into /tmp and run the given properties verbosely
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off VERIF_DIR=/verif MC_VERBOSE=1
cd /verif/mc && go build -o /tmp/mcbin . || exit 2
for p in "$@"; do /tmp/mcbin run $p 2>&1 | cut -c1-1500; done
