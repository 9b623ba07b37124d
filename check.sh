#!/bin/bash
# check.sh <property> <quick|thorough>   build from /repo's working tree and decide the property
# check.sh replay <file>                 re-run one recorded case
# check.sh build                         build only
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
V=$PWD
R=/repo
export CARGO_TARGET_DIR=$V/target
build() {
  # cargo decides by modification times; a restored or unpacked tree may carry old ones, so go by content
  h=$(find "$R" -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat target/built-from 2>/dev/null)" != "$h" ]; then
    (cd mc && cargo clean --offline --release --quiet -p trust-graph -p fluence-keypair -p svc -p mc) >/dev/null 2>&1
    echo "$h" >target/built-from
  fi
  (cd mc && cargo build --offline --release --quiet) >target/build.log 2>&1 && return 0
  # the service does not compile: properties of the library and the key pairs alone can still be decided
  case "$1" in C12|C13|C14|C16)
    export CARGO_TARGET_DIR=$V/target/lib
    (cd mc-lib && cargo clean --offline --release --quiet -p trust-graph -p fluence-keypair -p mc) >/dev/null 2>&1
    if (cd mc-lib && cargo build --offline --release --quiet) >target/build-lib.log 2>&1; then
      MC=target/lib/release/mc
      return 0
    fi ;;
  esac
  tail -40 target/build.log >&2
  echo "build of the harness against /repo failed" >&2
  exit 2
}
mkdir -p target evidence
MC=target/release/mc
build "$1"
ulimit -c 0
case "$1" in
  build) exit 0 ;;
  replay) exec $MC replay "$2" "$V" ;;
  *) exec $MC check "$1" "${2:-${VERIF_TIER:-quick}}" "$V" ;;
esac
