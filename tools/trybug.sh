#!/bin/bash
# trybug.sh ID [PROP]: applies the planted bug to /repo, runs its check, undoes it.
id=$1
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 py/check.py $p > /tmp/try.out 2>&1; c=$?
git -C /repo checkout -q -- .
echo "$id $p exit=$c $(grep -c '^failed obligation' /tmp/try.out) failed obligations; $(grep VIOLATION /tmp/try.out | cut -c1-150)"
grep -E "^[a-z_-]+: (PROVED|FAILED|UNDECIDED)" /tmp/try.out | cut -c1-250
