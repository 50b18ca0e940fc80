#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's current working tree
# check.sh --replay FILE               replay a recorded violation (exit 1 if it is reproduced)
# Environment: VERIF_SEED (base seed, default 1), VERIF_TIER, REPO (default /repo), JOBS.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE"
export REPO=${REPO:-/repo}
JOBS=${JOBS:-$(nproc)}
SEED=${VERIF_SEED:-1}
case $SEED in ''|*[!0-9]*) SEED=1;; esac

variant_of() { case $1 in C14) echo asan;; C13) echo patt;; *) echo plain;; esac; }
peer_of() { case $1 in C13) echo zero;; esac; }
build() { bash sim/build.sh "_build/$1" "$1" || { echo "check: cannot build variant $1 from $REPO" >&2; exit 2; }; }

if [ "${1:-}" = --replay ]; then
  P=$(sed -n 's/^property //p' "$2" | head -1); V=$(variant_of "$P"); PEER=$(peer_of "$P")
  build "$V"; A=()
  [ -n "$PEER" ] && { build "$PEER"; A=(--peer "$HERE/_build/$PEER/simrun"); }
  exec "_build/$V/simrun" replay "$2" "${A[@]}"
fi

P=$1; TIER=${2:-${VERIF_TIER:-quick}}
V=$(variant_of "$P"); PEER=$(peer_of "$P")
# seeds per check: a fixed number, so that a run is repeatable, with a time limit as a safety net
COUNT=$(awk -v p="$P" '$1==p{print $2}' counts.txt); COUNT=${COUNT:-1500}; SECS=420
[ "$TIER" = thorough ] && { COUNT=$((COUNT * 12)); SECS=820; }
build "$V"; A=()
[ -n "$PEER" ] && { build "$PEER"; A=(--peer "$HERE/_build/$PEER/simrun"); }
mkdir -p evidence replays
"_build/$V/simrun" check "$P" --tier "$TIER" --seed "$SEED" --count "$COUNT" --secs "$SECS" --jobs "$JOBS" \
  --evidence "evidence/$P.json" --replays "$HERE/replays" --variant "$V" --known known-findings.txt "${A[@]}"
