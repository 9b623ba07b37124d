#!/bin/bash
# catch.sh [ids...]: run the check of each seeded bug's property against it (scratch in ${W:-/tmp/w})
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  echo "$i: $(bash tools/try.sh $PWD/seeded/$i/patch.diff $p ${EXTRA} 2>&1 | tail -$((1+$(echo $EXTRA|wc -w))) | tr '\n' ' ')"
done
