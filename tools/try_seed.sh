#!/bin/bash
# try_seed.sh ID [CHECK...]: applies a planted bug to /repo, runs the checks (default: its property), undoes it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
[ $# = 0 ] && set -- $(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for c in "$@"; do
    VERIF_TIER=${VERIF_TIER:-quick} ./run.sh "$c" 2>&1 | cut -c1-200 | tail -4
    echo "$id $c -> ${PIPESTATUS[0]}"
done
git -C /repo checkout -q -- .
