#!/bin/bash
# mkbug.sh ID: takes the difference of the scratch copy /tmp/w from /repo's HEAD as seeded/ID/patch.diff,
# builds, runs unit tests and the demo in the copy, and shows whether the demo fails there.
set -u
id=$1
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
. /opt/vp/env.sh
unset CARGO_TARGET_DIR
cd /tmp/w && cargo build --offline --locked -q 2>&1 | grep -E "^(error|warning: unused)" | head; 
timeout 300 cargo test --offline --locked -q 2>&1 | grep -E "test result|FAILED|panicked" | head -5
(cd /tmp/w && timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo with patch: $?"; tail -3 /tmp/demo.out)
(cd /repo && cargo build --offline --locked -q; timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo without: $?"; tail -3 /tmp/demo.out)
git -C /tmp/w checkout -q -- .
