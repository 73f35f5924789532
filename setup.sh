#!/bin/bash
# Pre-build the third-party dependencies and all monitors once (checks rebuild what changed anyway).
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build_env.sh"
cd "$here/harness" && cargo build --offline --locked --bins 2>&1 | tail -3
rc=${PIPESTATUS[0]}
build_asan c25 || rc=1
exit $rc
