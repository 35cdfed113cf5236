#!/bin/bash
# check.sh PROP [quick|thorough] - builds the simulation for one property from
# /repo's working tree and explores it.  Exit 0 held, 1 violation, 2 error.
cd "$(dirname "$0")" || exit 2
P=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
B=build/$P-$TIER; rm -rf "$PWD/$B"; mkdir -p "$B" replays evidence || exit 2
rm -f "$PWD/evidence/$P.json"
if [ "$TIER" = thorough ]; then S=${SECONDS_BUDGET:-480}; M=120; else S=${SECONDS_BUDGET:-20}; M=60; fi
if ! ./build.sh "$P" "$B/sim" >"$B/log" 2>&1; then
  echo "ERROR: the simulation for $P does not build against /repo"; tail -40 "$B/log"; exit 2
fi
"$B/sim" --seed "$SEED" --tier "$TIER" --seconds "$S" --minimise "$M" --jobs "${JOBS:-8}" \
  --evidence "evidence/$P.json" --replay-dir replays --known KNOWN_FINDINGS
rc=$?
[ $rc = 1 ] || rm -rf "$PWD/$B"
exit $rc
