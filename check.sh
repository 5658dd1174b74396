#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run in /verif)
# Builds the explorer against /repo's current working tree and explores PROPERTY.
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
mkdir -p out/bin evidence
BIN=out/bin/mc.$P
DEADLINE=600
[ "$TIER" = thorough ] && DEADLINE=3000
FLAGS=()
case $P in
P14) # map iteration order is a decision of the explorer: the runtime's map iterator is overlaid
  mkdir -p out/overlay
  bash mc/overlay/make.sh out/overlay || exit 2
  FLAGS=(-overlay out/overlay/overlay.json -tags maporder) ;;
P22) # scheduling points at accesses of package variables are overlaid, happens-before is monitored
  mkdir -p out/points
  find out/points -name '*.go' -delete
  FLAGS=(-race)
  if (cd mc && go run ./overlay/points /repo ../out/points) && (cd mc && go build -race -overlay ../out/points/overlay.json -tags points -o "../$BIN.$$" .); then
    FLAGS=(-race -overlay out/points/overlay.json -tags points)
  fi ;;
esac
if ! (cd mc && go build "${FLAGS[@]/#out/..\/out}" -o "../$BIN.$$" .); then
  echo "check.sh: the explorer does not build against /repo" >&2
  exit 2
fi
mv -f "$BIN.$$" "$BIN"
"$BIN" -prop "$P" -tier "$TIER" -out "$PWD/out" -known known_findings.txt \
  -evidence "evidence/$P.json" -deadline "$DEADLINE"
exit $?
