#!/bin/bash
# replay.sh REPLAY.json - rebuilds from /repo and replays a recorded failure.
cd "$(dirname "$0")" || exit 2
R=$(realpath "$1"); P=$(sed -n 's/.*"property": "\(P[0-9]*\)".*/\1/p' "$R" | head -1)
read -r GENSEED GENCOUNT < <(sed -n 's/.*"batch": "\([0-9 ]*\)".*/\1/p' "$R" | head -1)
export GENSEED GENCOUNT
B=build/replay-$P; mkdir -p "$B"
DEBUG_INFO=-gline-tables-only ./build.sh "$P" "$B/sim" || exit 2
"$B/sim" --replay "$R" --print 1
