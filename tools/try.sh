#!/bin/bash
# try.sh <patch|-|reverse:COMMIT> <checks...>  run checks against a scratch copy of /repo (committed state) with a change applied.
# Scratch lives in ${W:-/tmp/w}; remove it when done.
W=${W:-/tmp/w}; P=$1; shift
. /opt/vp/env.sh
mkdir -p $W/verif
rm -rf "$W/repo"; git -C /repo worktree prune; mkdir -p $W/repo; git -C /repo archive HEAD | tar -x -C $W/repo
(cd $W/repo && git init -q . 2>/dev/null
 case $P in
  -) ;;
  reverse:*) git -C /repo show ${P#reverse:} | git apply -R - || { echo "does not apply"; exit 3; } ;;
  *) git apply "$P" || { echo "does not apply"; exit 3; } ;;
 esac) || exit 3
rsync -a --delete --exclude target --exclude replays --exclude evidence --exclude .git /verif/ $W/verif/ 2>/dev/null || { rm -rf $W/verif/mc; cp -a /verif/mc /verif/known_findings.json $W/verif/; }
grep -rl '/repo' $W/verif/mc --include=Cargo.toml --include=*.rs | xargs sed -i "s#\"/repo/#\"$W/repo/#"
mkdir -p $W/verif/evidence $W/verif/replays $W/verif/target
cd $W/verif/mc && export CARGO_TARGET_DIR=$W/verif/target
find $W/repo -type f -exec touch {} +
cargo build --offline --release --quiet >$W/build.log 2>&1 || { tail -30 $W/build.log; echo BUILD-FAILED; exit 2; }
for c in "$@"; do
  s=$(date +%s)
  timeout ${T:-900} $W/verif/target/release/mc check $c ${TIER:-quick} $W/verif >$W/$c.out 2>&1; r=$?
  echo "$c exit=$r $(( $(date +%s)-s ))s $(grep -c KNOWN-FINDING $W/$c.out) known; $(grep -v 'KNOWN\|cases=\|held\|^VIOLATION' $W/$c.out | head -${L:-2} | cut -c1-${WIDTH:-300} | tr '\n' ' ')"
done
