#!/bin/bash
# tools/against.sh DIR ID...   run checks against another checkout of the library (development aid)
d=$1; shift
w=$(mktemp -d /tmp/ag.XXXXXX)
cp -r /verif/mc /verif/conc /verif/run.sh /verif/known_findings.json /verif/MANIFEST.json $w/
mkdir -p $w/evidence $w/replays
sed -i "s#=> /repo#=> $d#" $w/mc/go.mod
cd $w
for p in "$@"; do bash run.sh $p 2>&1 | cut -c1-${W:-600}; [ ${PIPESTATUS[0]} = 1 ] && [ -n "$STOP" ] && break; done
[ -n "$KEEP" ] && cp -r $w/replays/. $KEEP/
cd /; rm -rf -- "$w"
