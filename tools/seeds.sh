#!/bin/bash
# seeds.sh [ID...]: applies each planted bug (all of seeded/ by default) to /repo, runs the quick check of its property (and, with
# ALL=1, those of the other properties too), undoes it, and reports which checks caught it. Needs a clean /repo.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT INT TERM
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  props=$prop
  [ -n "$ALL" ] && props=$(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  caught=""; quiet=""; start=$(date +%s)
  for p in $props; do
    timeout 900 ./check.sh "$p" quick > /tmp/seeds.out 2>&1; rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/seeds.out; then caught="$caught $p"; elif [ $rc != 0 ]; then quiet="$quiet $p(rc=$rc)"; fi
  done
  git -C /repo checkout -q -- .
  case " $caught " in *" $prop "*) v=CAUGHT;; *) v=MISSED;; esac
  echo "$v $id ($prop) by:$caught$quiet $(( $(date +%s) - start ))s"
done
