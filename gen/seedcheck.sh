#!/bin/bash
# seedcheck.sh id...: applies each seeded change to /repo, runs the quick check
# of its property, reverts; prints whether it was caught.
for id in "$@"; do
	d=/verif/seeded/$id
	p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
	s=$(date +%s)
	o=$(cd /verif && VERIF_SEED=1 timeout 900 ./run.sh "$p" quick 2>&1); rc=$?
	git -C /repo checkout -q -- .
	if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " <<<"$o"; then
		echo "$id: caught by $p ($(( $(date +%s) - s )) s) $(grep -m1 '^   sig\|violated' <<<"$o" | cut -c1-150)"
	else
		echo "$id: MISSED by $p rc=$rc ($(( $(date +%s) - s )) s)"; grep -v -A40 "DATA RACE" <<<"$o" | tail -3 | cut -c1-300
	fi
done
