# Sourced by run.sh / setup.sh. Same toolchain and profile as /repo's own test build, so that the
# compiled third-party dependencies in /repo/target (git-ignored) are reused when present.
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export SIDERUST_JPL_STUB=all
export CARGO_TARGET_DIR=${VH_TARGET_DIR:-/repo/target}
build_harness() { # build_harness BIN
    # Never trust mtimes: drop cargo's freshness record of siderust itself (incremental state is
    # keyed on content, so this stays cheap) and rebuild from the working tree.
    mkdir -p "$CARGO_TARGET_DIR"
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -regextype posix-extended -regex '.*/siderust-[0-9a-f]{16}' -exec rm -r {} + 2>/dev/null
    local log
    log=$(mktemp)
    if (cd "$here/harness" && cargo build --offline --locked --bin "$1") >"$log" 2>&1; then
        rm -f "$log"; return 0
    fi
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60 >&2; tail -5 "$log" >&2
    rm -f "$log"; return 1
}
export ASAN_TARGET_DIR=$CARGO_TARGET_DIR/vffi ASAN_TRIPLE=x86_64-unknown-linux-gnu
build_asan() { # build_asan BIN: the C-interface harness under AddressSanitizer (nightly)
    mkdir -p "$ASAN_TARGET_DIR"
    find "$ASAN_TARGET_DIR/$ASAN_TRIPLE/debug/.fingerprint" -maxdepth 1 -regextype posix-extended -regex '.*/siderust(-ffi)?-[0-9a-f]{16}' -exec rm -r {} + 2>/dev/null
    local log
    log=$(mktemp)
    if (cd "$here/ffi" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS=-Zsanitizer=address CARGO_TARGET_DIR="$ASAN_TARGET_DIR" cargo build --offline --locked --target $ASAN_TRIPLE --bin "$1") >"$log" 2>&1; then
        rm -f "$log"; return 0
    fi
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60 >&2; tail -5 "$log" >&2
    rm -f "$log"; return 1
}
export TSAN_TARGET_DIR=$CARGO_TARGET_DIR/vtsan
build_tsan() { # build_tsan BIN: monitor and standard library under ThreadSanitizer (nightly, std rebuilt from rust-src)
    mkdir -p "$TSAN_TARGET_DIR"
    find "$TSAN_TARGET_DIR/x86_64-unknown-linux-gnu/debug/.fingerprint" -maxdepth 1 -regextype posix-extended -regex '.*/siderust-[0-9a-f]{16}' -exec rm -r {} + 2>/dev/null
    local log
    log=$(mktemp)
    if (cd "$here/harness" && RUSTUP_TOOLCHAIN=nightly CARGO_PROFILE_DEV_OPT_LEVEL=2 RUSTFLAGS=-Zsanitizer=thread CARGO_TARGET_DIR="$TSAN_TARGET_DIR" cargo build --offline --locked -Zbuild-std --target x86_64-unknown-linux-gnu --bin "$1") >"$log" 2>&1; then
        rm -f "$log"; return 0
    fi
    grep -E '^(error|warning: unused)' -A6 "$log" | head -60 >&2; tail -5 "$log" >&2
    rm -f "$log"; return 1
}
