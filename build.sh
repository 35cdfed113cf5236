#!/bin/bash
# build.sh PROP OUT - compiles one simulation binary from /repo's working tree.
# Directives in the harness source: "// PARTS: n" compiles it n times with
# -DPART=0..n-1; "// SCHED" makes every memory access a pre-emption point; "// WRAP: f g"
# routes libc calls to the simulated kernel; "// CXX: flags".
cd "$(dirname "$0")" || exit 2
P=$1; OUT=$2; REPO=${REPO:-/repo}; SRC=props/$P.cpp
D=$OUT.o; mkdir -p "$D" || exit 2
dir() { sed -n "s,^// $1: ,,p" "$SRC"; }
INC="-I$REPO/include -Isim"
STD="-std=c++17 ${DEBUG_INFO:--g0} -fno-omit-frame-pointer"
OPT=$(dir OPT); OPT=${OPT:--O1}
COV="-fsanitize-coverage=trace-pc-guard"
KIND=address
grep -q '^// SCHED' "$SRC" && KIND="thread -mllvm -tsan-instrument-func-entry-exit=0"
SAN="-fsanitize=$KIND -fsanitize-coverage-allowlist=sim/cov.allow $COV"
W="pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort $(dir WRAP)"
WRAP=$(for w in $W; do printf -- '-Wl,--wrap=%s ' "$w"; done)
PARTS=$(dir PARTS); PARTS=${PARTS:-1}
pids=()
clang++ $STD -O2 -c sim/rt.cpp -o "$D/rt.o" $INC & pids+=($!)
clang++ $STD -O1 -c sim/runner.cpp -o "$D/runner.o" $INC & pids+=($!)
# "// GEN: q t": the harness first writes a batch of q sources per part (t in
# the thorough tier), which are then compiled into it.
GEN=$(dir GEN); INCG=""
if [ -n "$GEN" ]; then
  read -r q t <<<"$GEN"; [ "$VERIF_TIER" = thorough ] && q=$t
  DEF="-DGENSEED=${GENSEED:-${VERIF_SEED:-1}} -DGENCOUNT=${GENCOUNT:-$q}"; G=$(realpath "$D")/gen; rm -rf "$G"; mkdir -p "$G"; INCG="-I$G $DEF"
  gp=(); GO=""
  for ((i = 0; i < PARTS; ++i)); do
    GO="$GO $D/gen$i.o"
    clang++ $STD -O0 -DGENERATE $DEF -DPART=$i $(dir CXX) -c "$SRC" -o "$D/gen$i.o" $INC & gp+=($!)
  done
  for p in "${gp[@]}" "${pids[0]}"; do wait "$p" || exit 2; done; unset 'pids[0]'
  clang++ -no-pie -fsanitize=address "$D/rt.o" $GO -o "$D/generate" $WRAP -lpthread || exit 2
  timeout 400 "$D/generate" "$G" || exit 2
fi
OBJS=""
part() { local p=$1; shift; clang++ "$@" $STD $OPT $SAN -DPART=$p $(dir CXX) -c "$SRC" -o "$D/part$p.o" $INC $INCG; }
# A generated source that does not compile is left out and reported by the run.
genpart() {
  local l=$D/part$1.log e=$G/bad$1.hpp
  part "$1" -ferror-limit=0 >"$l" 2>&1 && return 0
  sed -nE 's,^.*/lex_([0-9]+_[0-9]+)\.hpp:[0-9]+:[0-9]+: (fatal )?error: (.*)$,\1 \3,p' "$l" | tr -d '"\\' |
    awk '!s[$1]++ { n = $1; $1 = ""; print "#define BAD_" n " \"" substr($0, 2) "\"" }' >"$e"
  if [ ! -s "$e" ]; then cat "$l"; return 1; fi
  INCG="$INCG -include $e"; part "$1"
}
for ((i = 0; i < PARTS; ++i)); do
  OBJS="$OBJS $D/part$i.o"
  if [ -n "$GEN" ]; then genpart $i & else part $i & fi
  pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait "$p" || rc=2; done
[ $rc = 0 ] || exit $rc
clang++ -no-pie -fsanitize=address "$D/rt.o" "$D/runner.o" $OBJS -o "$OUT" $WRAP -lpthread || exit 2
