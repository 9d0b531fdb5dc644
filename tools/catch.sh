#!/bin/bash
# catch.sh [ID...]: runs the quick check of each planted bug's property against
# it, in a scratch copy of /repo (PROP overrides the property).
w=$(mktemp -d /tmp/catch.XXXXXX); trap 'rm -rf "$w"' EXIT
cd /verif/seeded || exit 1
for id in ${@:-*}; do
	p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
	rm -rf "$w/repo"; cp -a /repo "$w/repo"
	git -C "$w/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
	for q in ${PROP:-$p}; do
		s=$(date +%s)
		out=$(SIM_REPO=$w/repo SIM_OUT=$w VERIF_SEED=${VERIF_SEED:-1} /verif/check.sh $q quick 2>&1); rc=$?
		echo "$id $q exit=$rc $(( $(date +%s) - s ))s $(grep -m1 violates <<<"$out" | cut -c1-200)"
		[ $rc = 2 ] && tail -5 <<<"$out"
	done
done
