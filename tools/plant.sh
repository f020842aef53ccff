#!/bin/bash
# plant.sh <seed-id> <property> : take the difference of the scratch copy /tmp/w/repo as a planted bug, confirm it, run the check.
# The folder /verif/seeded/<seed-id> must already hold demo.sh and meta.json.
id=$1; prop=$2; d=/verif/seeded/$id
cd /tmp/w/repo || exit 1
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change in scratch copy"; exit 1; }
git -C /repo apply --check "$d/patch.diff" || { echo "does not apply"; exit 1; }
log=$(make -j8 -o check-tools prepare exe tests 2>&1 && make -o check-tools bash rstats python misc 2>&1) || { echo "$log" | tail -20; exit 1; }
(cd /tmp/w/repo && timeout 300 bash "$d/demo.sh" >/tmp/w/demo.out 2>&1); rc=$?
echo "demo with bug: $rc"; [ $rc = 0 ] && tail -5 /tmp/w/demo.out
(cd /tmp/w/clean && timeout 300 bash "$d/demo.sh" >/tmp/w/demo.out 2>&1); rc2=$?
echo "demo clean: $rc2"; [ $rc2 = 0 ] || tail -20 /tmp/w/demo.out
git checkout -q -- .
git -C /repo apply "$d/patch.diff" || exit 1
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /usr/bin/python3 check.py "$prop" | cut -c1-300 | tail -4; echo "check exit: ${PIPESTATUS[0]}"
git -C /repo checkout -- .
