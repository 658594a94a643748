#!/bin/bash
# quiet.sh SEED TIME [PROPS...]: every check on one seed; prints what is not quiet.
cd "$(dirname "$0")/.."
B=$(./build.sh) || exit 2
seed=$1 t=$2; shift 2
L=${*:-$(seq -f P%02g 1 26)}
for p in $L; do
	o=$($B -prop $p -tier quick -seed $seed -time $t -evidence /tmp/quiet.ev -replays /tmp/quiet.rp 2>&1); rc=$?
	echo "$p rc=$rc $(echo "$o" | tail -1 | cut -c1-250)"
	[ $rc = 0 ] || echo "$o" | cut -c1-600 | head -20
done
