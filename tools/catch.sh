#!/bin/bash
# catch.sh ID [PROP...] : apply the seeded bug to /repo, run the stable tests and the property's check, undo
id=$1; shift
S=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo apply "$S/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
echo "== $id"; bash /verif/tools/stable.sh 2>&1 | tail -2
for p in $props; do (cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh $p 2>&1 | grep -E "VIOLATION|KNOWN|tier=|error" ; echo "rc ${PIPESTATUS[0]}") ; done
