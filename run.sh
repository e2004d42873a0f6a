#!/bin/bash
# bash run.sh ID             run the check of one property (VERIF_TIER=quick|thorough)
# bash run.sh --replay FILE  replay a recorded violation against /repo's current tree
# Rebuilds the explorer against /repo's working tree in a scratch directory each time.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
if [ "${1:-}" = "C02" ]; then
  bash "$VERIF_DIR/conc/run.sh" "$scratch"
  exit $?
fi
if [ "${1:-}" = "--replay" ] && grep -q '"property": "C02"' "$2"; then
  bash "$VERIF_DIR/conc/run.sh" "$scratch" replay "$2"
  exit $?
fi
cp -r mc "$scratch/mc" || exit 2
( cd "$scratch/mc" && go build -o "$scratch/mcbin" . ) || { echo "check error: the explorer does not build against /repo" >&2; exit 2; }
if [ "${1:-}" = "--replay" ]; then
  "$scratch/mcbin" replay "$2"
else
  "$scratch/mcbin" run "$1"
fi
exit $?
