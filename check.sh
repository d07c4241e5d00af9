#!/bin/bash
# check.sh <property> <quick|thorough> [--only case:seed]   builds the monitors against /repo's working tree and runs one property
# check.sh build                                            builds everything the quick checks use
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ROOT="$PWD"
export CARGO_TARGET_DIR="$ROOT/.build/target"
ID="$1"; TIER="${2:-quick}"; shift; shift
mkdir -p .build evidence
rm -f "evidence/$ID.json"
TRIPLE=x86_64-unknown-linux-gnu
# cargo decides freshness by mtime; compare contents as well
SRCHASH=$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml Cargo.lock build.rs 2>/dev/null; } | sha256sum | cut -d' ' -f1)
# stale <name>: true when the last build of that name was of other sources
stale() { [ -f ".build/srchash.$1" ] && [ "$(cat ".build/srchash.$1")" != "$SRCHASH" ]; }
failed() { tail -40 ".build/build.$1.log"; echo "the monitors do not build against /repo's tree ($1)"; exit 2; }
build() {
  if stale mon; then (cd harness && cargo clean --offline -q -p ferrite 2>/dev/null); fi
  (cd harness && cargo build --offline --locked -q --bin mon) > .build/build.mon.log 2>&1 || failed mon
  echo "$SRCHASH" > .build/srchash.mon
}
# build_san <address|thread>
build_san() {
  local t="$ROOT/.build/san-$1" std=""
  [ "$1" = thread ] && std="-Zbuild-std"
  local -x RUSTFLAGS="-Zsanitizer=$1 -Cunsafe-allow-abi-mismatch=sanitizer"
  if stale "$1"; then (cd harness && CARGO_TARGET_DIR="$t" cargo +nightly clean --offline -q -p ferrite --target $TRIPLE 2>/dev/null); fi
  (cd harness && CARGO_TARGET_DIR="$t" cargo +nightly build --offline --locked -q $std --target $TRIPLE --bin mon) > ".build/build.$1.log" 2>&1 || return 1
  echo "$SRCHASH" > ".build/srchash.$1"
}
miri() { # miri <flags> [args]
  local flags="$1"; shift
  (cd miri && XDG_CACHE_HOME="$ROOT/.build/miri-cache" CARGO_TARGET_DIR="$ROOT/.build/miri" MIRIFLAGS="-Zmiri-preemption-rate=0 -Zmiri-disable-isolation $flags" \
    cargo +nightly miri "$@")
}
build_miri() {
  if stale miri; then (cd miri && CARGO_TARGET_DIR="$ROOT/.build/miri" cargo +nightly clean --offline -q -p ferrite --target $TRIPLE 2>/dev/null); fi
  # there is no build alone: a run that comes as far as its first line was built
  miri "" run --offline --locked -q --bin memwork none > .build/build.miri.log 2>&1
  grep -q ^START .build/build.miri.log || return 1
  echo "$SRCHASH" > .build/srchash.miri
}
violation() { # violation <text file>
  mkdir -p evidence/replay
  cp "$1" "evidence/replay/$ID.txt"
  echo "VIOLATION property=$ID replay=$ROOT/evidence/replay/$ID.txt"
  exit 1
}
# alive <binary> <selftest> <word>: the sanitizer must report a deliberate error
alive() {
  "$1" "$2" > .build/alive.log 2>&1
  grep -q "$3" .build/alive.log || { tail -5 .build/alive.log; echo "the sanitizer in $1 does not report"; exit 2; }
}
# run_san <address|thread> <word>
run_san() {
  local bin="$ROOT/.build/san-$1/$TRIPLE/debug/mon" rc
  alive "$bin" "$3" "$2"
  "$bin" "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --root "$ROOT" "${ARGS[@]}" > ".build/out.$1" 2> ".build/err.$1"
  rc=$?
  if grep -q "$2" ".build/err.$1" || [ $rc -ge 128 ]; then
    { echo "sanitizer $1, exit code $rc; replay: VERIF_SEED=${VERIF_SEED:-1} ./check.sh $ID $TIER ${ARGS[*]}"; grep -n -m1 -A80 -E "$2|panicked|overflow" ".build/err.$1"; } > .build/san.txt
    grep -m3 -E "$2|SUMMARY" ".build/err.$1"
    violation .build/san.txt
  fi
  cat ".build/out.$1"
  [ $rc = 0 ] || exit $rc
}
memory() {
  export ASAN_OPTIONS=detect_leaks=0:exitcode=77:detect_stack_use_after_return=0 TSAN_OPTIONS=exitcode=66:halt_on_error=1:history_size=4
  local mpid seeds
  if [ "$TIER" = thorough ]; then seeds=400; else seeds=32; fi
  build_miri & mpid=$!
  build_san address || failed address
  wait $mpid || failed miri
  # the interpreter: many schedules and workloads in one go
  local from=$(( (${VERIF_SEED:-1} % 100000) * 1000 ))
  if [ -z "${ARGS[*]}" ]; then
    miri "-Zmiri-many-seeds=$from..$((from + seeds))" run --offline --locked -q --bin memwork > .build/miri.log 2>&1
    if [ $? != 0 ] || [ "$(grep -c ^DONE .build/miri.log)" != $seeds ]; then
      if grep -q -E "Undefined Behavior|memory leaked|data race|panicked|deadlock" .build/miri.log; then
        { echo "Miri; replay: ./check.sh $ID $TIER, or in miri/: MIRIFLAGS=-Zmiri-many-seeds=$from..$((from + seeds)) cargo +nightly miri run"; grep -n -m1 -A60 -E "Undefined Behavior|memory leaked|data race|panicked|deadlock" .build/miri.log; } > .build/san.txt
        grep -m2 -E "Undefined Behavior|memory leaked|data race|panicked|deadlock" .build/miri.log
        violation .build/san.txt
      fi
      tail -20 .build/miri.log; echo "Miri gave no answer"; exit 2
    fi
  fi
  if [ "$TIER" = thorough ]; then
    build_san thread || failed thread
    run_san thread ThreadSanitizer selftest-race
    cp evidence/$ID.json .build/tsan.json 2>/dev/null
  fi
  run_san address AddressSanitizer selftest
  [ -z "${ARGS[*]}" ] && python3 - "$ID" "$TIER" <<'P'
import json, os, re, sys
p = f"evidence/{sys.argv[1]}.json"
e = json.load(open(p))
m = open(".build/miri.log").read()
runs = [int(x) for x in re.findall(r"^DONE \d+ (\d+)", m, re.M)]
c = e["coverage"]
c["miri"] = {"schedules": len(runs), "distinct_workloads": len(set(re.findall(r"^DONE (\d+)", m, re.M))), "operations": sum(runs)}
c["evaluations"] += sum(runs)
c["sanitizers"] = ["address (alive: reported a deliberate use after free)", "Miri"]
if sys.argv[2] == "thorough" and os.path.exists(".build/tsan.json"):
    t = json.load(open(".build/tsan.json"))["coverage"]
    c["sanitizers"].append("thread (alive: reported a deliberate race)")
    c["thread_sanitizer"] = {"evaluations": t["evaluations"], "observed": t["observed"]}
json.dump(e, open(p, "w"), indent=1)
P
  exit 0
}
ARGS=("$@")
if [ "$ID" = build ]; then
  build
  build_miri &
  # a sanitizer build that fails here fails P25's own check, with its log
  (build_san address)
  wait
  exit 0
fi
ulimit -c 0
[ "$ID" = P25 ] && memory
build
./.build/target/debug/mon "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --root "$PWD" "$@" 2> .build/stderr.$ID
rc=$?
tail -c 20000 .build/stderr.$ID >&2
case $rc in
  132|134|135|136|139)
    # the code under test took the process down (memory fault, abort, stack overflow)
    { echo "the process died with signal $((rc - 128)); replay: VERIF_SEED=${VERIF_SEED:-1} ./check.sh $ID $TIER $*"; tail -c 4000 .build/stderr.$ID; } > .build/died.txt
    violation .build/died.txt ;;
esac
exit $rc
