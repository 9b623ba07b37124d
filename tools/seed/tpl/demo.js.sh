#!/bin/bash
# run with cwd /repo; exit 0 if the property's demonstration passes
here=$(cd "$(dirname "$0")" && pwd)
s=$(mktemp -d) || exit 2
trap 'rm -rf "$s"' EXIT
cp -r "$here/demo" "$s/demo" || exit 2
timeout 200 node "$s/demo/main.cjs" "$PWD" "$s"
