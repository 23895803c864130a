#!/bin/bash
# run the property's check against a planted bug in a scratch copy: try.sh ID [TIER]
id=$1; t=/tmp/pds-try-$id
rm -rf "$t"; cp -a /repo "$t" && git -C "$t" apply /verif/seeded/$id/patch.diff || exit 3
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
out=$(VERIF_REPO=$t bash /verif/check.sh $p ${2:-quick} 2>&1); rc=$?
echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '^VIOLATION' | head -1 | cut -c1-150)"
rm -rf "$t"
