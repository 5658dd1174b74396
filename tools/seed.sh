#!/bin/bash
# usage: seed.sh ID [PROPERTY...]  verifies seeded/ID in a scratch copy of /repo and runs the checks
# of its property (or of the given ones) against it. SKIPV=1 skips the verification.
. /opt/vp/env.sh
ID=$1; shift
S=${SEEDS:-/verif/seeded}/$ID
W=/tmp/seed.$ID.$$
mkdir -p "$W"; trap 'rm -rf "/tmp/seed.'$ID.$$'"' EXIT
cp -a /repo "$W/repo"
cd "$W/repo" || exit 2
git checkout -q -- . 
if [ -z "${SKIPV:-}" ]; then
  bash "$S/demo.sh" >"$W/d0" 2>&1 || { echo "$ID: demo FAILS on the unchanged tree"; tail -5 "$W/d0"; exit 1; }
fi
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
if [ -z "${SKIPV:-}" ]; then
  go build ./... || { echo "$ID: does not build"; exit 1; }
  go test -vet=off -count=1 ./... >"$W/t" 2>&1 || { echo "$ID: tests FAIL"; grep -E '^(---|\s+---) FAIL' "$W/t" | head -5; exit 1; }
  if bash "$S/demo.sh" >"$W/d1" 2>&1; then echo "$ID: demo PASSES with the bug"; exit 1; fi
fi
PROPS=("$@"); [ ${#PROPS[@]} = 0 ] && PROPS=($(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"))
[ "${PROPS[0]}" = none ] && exit 0
for P in "${PROPS[@]}"; do
  cp /verif/mc/go.mod "$W/mc.mod"; cp /verif/mc/go.sum "$W/mc.sum"
  sed -i "s#=> /repo#=> $W/repo#" "$W/mc.mod"
  FLAGS=(-modfile "$W/mc.mod")
  case $P in
  P14) REPO=$W/repo bash /verif/mc/overlay/make.sh "$W/overlay" || exit 2; FLAGS+=(-overlay "$W/overlay/overlay.json" -tags maporder);;
  P22) mkdir -p "$W/points"; (cd /verif/mc && go run ./overlay/points "$W/repo" "$W/points") && FLAGS+=(-race -overlay "$W/points/overlay.json" -tags points) || FLAGS+=(-race);;
  esac
  (cd /verif/mc && go build "${FLAGS[@]}" -o "$W/mc" .) || { echo "$ID: mc does not build"; exit 2; }
  "$W/mc" -prop "$P" -tier quick -out "$W/out" -known /verif/known_findings.txt -evidence "$W/e.json" -deadline 600 >"$W/o" 2>&1
  rc=$?
  echo "$ID $P rc=$rc $(grep -m1 -A1 VIOLATION "$W/o" | cut -c1-300 | tr '\n' ' ')"
done
