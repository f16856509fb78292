#!/bin/bash
# trycopy.sh ID [PROP]: like trybug.sh, but on a copy of /repo's HEAD, so that /repo stays untouched.
id=$1
p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
t=${TRYDIR:-/tmp/trycopy}; rm -rf "$t"; git clone -q /repo $t; ln -s /repo/.git $t/.x 2>/dev/null; rm -f $t/.x
git -C $t apply /verif/seeded/$id/patch.diff || exit 9
mkdir -p /tmp/vb
cd /verif && VERIF_REPO=$t VERIF_BUILD=/tmp/vb VERIF_SEED=1 VERIF_TIER=quick python3 py/check.py $p > /tmp/try.out 2>&1; c=$?
echo "$id $p exit=$c $(grep -c '^failed obligation' /tmp/try.out) failed obligations; $(grep VIOLATION /tmp/try.out | cut -c1-150)"
grep -E "^[a-z_-]+: (PROVED|FAILED|UNDECIDED)" /tmp/try.out | cut -c1-250
