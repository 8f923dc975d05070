#!/bin/bash
# seedtest.sh ID...: for each planted bug: applies, builds, unit tests, demo 0/nonzero, property check catches it.
. /opt/vp/env.sh
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/seedwt.XXXX)
  cp -a /repo/. "$W/"
  cp -a "$S" "$W.d"; rm -f "$W.d"/*.diff "$W.d"/meta.json
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd "$W"
  bash "$W.d/demo.sh" > "$W.d/clean.log" 2>&1; c0=$?
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  go build -buildvcs=false ./... || { echo "$id: does not build"; }
  bash "$W.d/demo.sh" > "$W.d/bug.log" 2>&1; c1=$?
  ut=-
  if [ -z "$NOUNIT" ]; then
    go test -vet=off -count=1 -skip '^TestTask$' ./Logger ./client ./crypto ./definition ./gossiper ./tests/unittests/... ./tests/networktests/Test2 ./tests/networktests/Test3 > "$W.d/ut.log" 2>&1
    ut=$(grep -E '^--- FAIL' "$W.d/ut.log" | tr '\n' ' ')
  fi
  cs=""
  for p in ${PROPS:-$P}; do
    VERIF_REPO=$W bash /verif/run.sh check $p quick > "$W.d/check.$p.log" 2>&1; cs="$cs $p=$?"
    [ -n "$SHOW" ] && tail -12 "$W.d/check.$p.log"
  done
  echo "$id: demo clean=$c0 bug=$c1 unit-fails=[$ut] check$cs"
  [ $c0 != 0 ] && tail -5 "$W.d/clean.log"
  [ $c1 = 0 ] && tail -5 "$W.d/bug.log"
  cd /; rm -rf "$W" "$W.d"
done
