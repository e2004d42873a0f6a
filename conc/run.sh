#!/bin/bash
# conc/run.sh SCRATCH [replay FILE]   C02: builds the instrumented explorer and the race binary
# from /repo's working tree and runs them. Called by run.sh with its environment.
set -u
scratch="$1"; shift
export VERIF_DIR
cd "$VERIF_DIR" || exit 2
repo=$(sed -n 's/^replace .* => \(\/.*\)$/\1/p' mc/go.mod)
mkdir -p "$scratch/ov" "$scratch/conc" "$scratch/race" "$scratch/gen" || exit 2
cp conc/gen/main.go "$scratch/gen/" && cp conc/vsched/vsched.go "$scratch/vsched.go" || exit 2
for d in conc race; do
  cp mc/go.mod mc/go.sum mc/ops.go mc/canon.go mc/geomutil.go "$scratch/$d/" || exit 2
done
cp conc/main/*.go "$scratch/conc/" && cp conc/race/race.go "$scratch/race/" || exit 2
( cd "$scratch/gen" && GO111MODULE=off GOFLAGS= go build -o "$scratch/genbin" main.go ) || exit 2
"$scratch/genbin" "$repo" "$scratch/vsched.go" "$scratch/ov" || { echo "check error: instrumentation failed" >&2; exit 2; }
( cd "$scratch/conc" && go build -overlay "$scratch/ov/overlay.json" -o "$scratch/concbin" . ) || { echo "check error: the instrumented explorer does not build against /repo" >&2; exit 2; }
export VERIF_POINTS="$scratch/ov/points.json"
if [ "${1:-}" = "replay" ]; then
  exec "$scratch/concbin" replay "$2"
fi
if ( cd "$scratch/race" && go build -race -o "$scratch/racebin" . ) 2>"$scratch/race.err"; then
  export VERIF_RACEBIN="$scratch/racebin"
fi
"$scratch/concbin" run
