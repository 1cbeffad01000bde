#!/bin/bash
# run.sh build | run.sh <PROPERTY> [quick|thorough] | run.sh replay <file> | run.sh list
# Rebuilds the harness (and the crate) from /repo's working tree, then runs one property check.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER="$here/harness/rustc_wrap.sh"
unset CARGO_PROFILE_DEV_DEBUG
mkdir -p "$here/evidence"
log="$here/evidence/build.log"
( cd "$here/harness" && flock "$here/evidence/.build.lock" cargo build --offline ) >"$log" 2>&1 || { tail -n 40 "$log"; echo "BUILD FAILED"; exit 2; }
bin="$CARGO_TARGET_DIR/debug/harness"
case "$1" in
  build) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  list|selftest) exec "$bin" "$1" ;;
esac
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_EVIDENCE="$here/evidence"
exec "$bin" run "$1"
