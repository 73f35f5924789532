#!/bin/bash
# run.sh <PROPERTY-ID>: rebuild siderust from /repo's working tree with the harness, run one monitor.
# Exit 0 held / 1 VIOLATION / 2 build or harness error / 3 inconclusive.
set -u
id=${1:?usage: run.sh C01}
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
. "$here/build_env.sh"
bin=$(echo "$id" | tr 'A-Z' 'a-z')
if [ -f "$here/ffi/src/bin/$bin.rs" ]; then
    # C interface: the whole process runs under AddressSanitizer (status 97 = a memory error report).
    build_asan "$bin" || { echo "BUILD-ERROR: ffi harness for $id did not build" >&2; exit 2; }
    rm -f "$here/evidence/$id.json"
    mkdir -p "$here/evidence/replays"
    log="$here/evidence/replays/$id-asan-$VERIF_TIER-$VERIF_SEED.txt"
    ASAN_OPTIONS=exitcode=97:detect_leaks=0:abort_on_error=0 "$ASAN_TARGET_DIR/$ASAN_TRIPLE/debug/$bin" 2>"$log"
    rc=$?
    [ -s "$log" ] && head -60 "$log" >&2
    if [ $rc = 97 ] || { [ $rc -ge 128 ] && [ $rc != 137 ] && [ $rc != 143 ]; }; then
        python3 "$here/tools/crash_evidence.py" "$id" "$log" "$rc" "$SECONDS"
        echo "VIOLATION property=$id replay=$log"
        exit 1
    fi
else
build_harness "$bin" || { echo "BUILD-ERROR: harness for $id did not build" >&2; exit 2; }
rm -f "$here/evidence/$id.json"
"$CARGO_TARGET_DIR/debug/$bin"
rc=$?
if [ $rc = 0 ] && [ "$id" = C28 ] && [ "$VERIF_TIER" = thorough ]; then
    # the same queries once more, from a cold start on eight threads, with every memory access watched
    build_tsan c28 || { echo "BUILD-ERROR: ThreadSanitizer harness did not build" >&2; exit 2; }
    mkdir -p "$here/evidence/replays"
    log="$here/evidence/replays/$id-tsan-$VERIF_SEED.txt"
    VH_C28_CHILD=$VERIF_SEED,600,77,8 TSAN_OPTIONS=exitcode=98 "$TSAN_TARGET_DIR/x86_64-unknown-linux-gnu/debug/c28" >/dev/null 2>"$log"
    t=$?
    echo "$id ThreadSanitizer: 600 queries on 8 threads, status $t, $(grep -c '^WARNING: ThreadSanitizer' "$log") report(s)"
    if [ $t = 98 ]; then head -60 "$log" >&2; echo "VIOLATION property=$id replay=$log"; exit 1; fi
    [ $t = 0 ] || rc=3
fi
fi
case $rc in 0|1|3) exit $rc ;; *) echo "HARNESS-ERROR: $bin ended with status $rc" >&2; exit 2 ;; esac
