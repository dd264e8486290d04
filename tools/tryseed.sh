#!/bin/sh
# tryseed.sh ID...: applies each planted bug to a scratch copy and runs its property's check on it.
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
w=/tmp/try_$id.$$
git clone -q /repo $w && git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
s=$(date +%s)
out=$(GOV_REPO=$w sh /verif/check.sh $p 2>&1); rc=$?
echo "$id $p exit=$rc $(($(date +%s)-s))s: $(echo "$out" | grep -E 'VIOLATION|holds' | head -3)"
find $w -mindepth 0 -delete
done
