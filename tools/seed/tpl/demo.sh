#!/bin/bash
# Run in the repository after the build: exit 0 if the behaviour is right, non-zero otherwise.
R=$PWD
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
cp -a "$D/demo" "$W/demo"
find "$W/demo" -name Cargo.toml -exec sed -i "s#@REPO@#$R#" {} +
cd "$W/demo" && export CARGO_TARGET_DIR=$W/target
cargo build --offline --quiet 2>"$W/log" || { tail -20 "$W/log"; exit 2; }
timeout 120 "$W/target/debug/demo"
