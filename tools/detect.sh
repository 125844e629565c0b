#!/bin/bash
# detect.sh <id>...   which planted bugs does their property's quick check report? (applies them to /repo and undoes that)
here=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$here/seeded/$id/meta.json")
    git -C /repo apply "$here/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
    t=$(date +%s)
    out=$(cd "$here" && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./check.sh "${CHECK:-$prop}" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$id ${CHECK:-$prop} rc=$rc $(($(date +%s) - t))s $(echo "$out" | grep -m1 '^VIOLATION')"
done
