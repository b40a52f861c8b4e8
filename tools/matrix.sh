#!/bin/bash
# Runs checks against the changes in seeded/: matrix.sh [-a] [ID...]
# -a: every check, not only the one for the property the change breaks.
cd "$(dirname "${BASH_SOURCE[0]}")/.." || exit 2
all=
[ "$1" = -a ] && { all=1; shift; }
ids=("$@")
[ ${#ids[@]} = 0 ] && ids=($(ls seeded))
trap 'git -C /repo checkout -- .' EXIT
for id in "${ids[@]}"; do
	p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "seeded/$id/meta.json")
	props=$p
	[ $all ] && props=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
	git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
	printf '%s (%s):' "$id" "$p"
	for q in $props; do
		s=$SECONDS
		out=$(VERIF_SEED=${VERIF_SEED:-1} bash check.sh "$q" quick 2>&1); rc=$?
		case $rc in
		0) [ "$q" = "$p" ] && printf ' %s=MISSED' "$q" ;;
		1) printf ' %s=caught(%ss)' "$q" $((SECONDS - s)) ;;
		*) printf ' %s=ERROR%s' "$q" $rc; echo "$out" | tail -5 ;;
		esac
		[ "$VERBOSE" ] && { echo; echo "$out" | cut -c1-300 | tail -8; }
	done
	echo
	git -C /repo checkout -- .
done
