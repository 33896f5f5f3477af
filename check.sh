#!/bin/bash
# check.sh Cxx            run the check of one property against /repo's working tree
# check.sh Cxx --replay F re-run one recorded case
# check.sh --setup        build only
# VERIF_TIER=quick|thorough, VERIF_SEED=n
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR=$here/harness/target
export RUSTFLAGS="--cfg jubako_verif"
export CARGO_NET_OFFLINE=true
id=${1:-}
build() { # profile
  (cd "$here/harness" && cargo build --profile "$1" --offline) >"$here/harness/build-$1.log" 2>&1 || {
    grep -E "^error" -A12 "$here/harness/build-$1.log" | head -60 >&2
    echo "check error: the harness does not build against /repo" >&2
    exit 2
  }
}
build release
case "$id" in --setup|C06|C13) build checked;; esac
# the jbk program itself
case "$id" in --setup|C12)
  cargo build --manifest-path /repo/Cargo.toml --target-dir "$here/harness/target/jbk" --offline --features build_bin --bin jbk >"$here/harness/build-jbk.log" 2>&1 || {
    grep -E "^error" -A12 "$here/harness/build-jbk.log" | head -60 >&2
    echo "check error: the jbk program does not build" >&2
    exit 2
  }
  ;;
esac
export JBKVERIF_JBK=$here/harness/target/jbk/debug/jbk
[ "$id" = --setup ] && exit 0
export JBKVERIF_RELEASE=$CARGO_TARGET_DIR/release/jbkverif
export JBKVERIF_CHECKED=$CARGO_TARGET_DIR/checked/jbkverif
if [ "${2:-}" = --replay ]; then
  exec "$JBKVERIF_RELEASE" replay "$id" "$3"
fi
exec "$JBKVERIF_RELEASE" check "$id"
