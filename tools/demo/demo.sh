#!/bin/bash
# Run with cwd = the siderust tree. Builds demo.rs (beside this file) against it and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only SIDERUST_JPL_STUB=all
export CARGO_TARGET_DIR=$repo/target
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$here/Cargo.lock" "$d/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml"
find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -regextype posix-extended -regex '.*/siderust-[0-9a-f]{16}' -exec rm -r {} + 2>/dev/null
(cd "$d" && cargo build --offline -q 2>"$d/log") || { tail -30 "$d/log"; exit 2; }
"$CARGO_TARGET_DIR/debug/vhdemo"
