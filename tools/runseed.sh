#!/bin/bash
# runseed.sh ID [PROPERTY...]: the checks against a planted bug, in a scratch copy
V=$(cd "$(dirname "$0")/.." && pwd)
I=$1; shift
W=$(mktemp -d /tmp/runseed.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
git -C "$W/repo" checkout -q -- .
git -C "$W/repo" apply "$V/seeded/$I/patch.diff" || exit 2
export SPEED_REPO=$W/repo
H=$("$V/build.sh") || exit 2
P=$*
[ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('$V/seeded/$I/meta.json'))['property'])")
for p in $P; do
	"$H" -prop "$p" -seed "${VERIF_SEED:-1}" -time "${SIM_TIME:-25s}" -min "${SIM_MIN:-800}" -workers 8 -evidence "$W/e" -replays "$W/r" > "$W/o" 2>&1
	rc=$?
	printf '%s %s rc=%s %s | %s\n' "$I" "$p" $rc "$(grep -o '[0-9]* executions.*' "$W/o" | tail -1 | grep -o '^[0-9]* exec\|[0-9.]* s$' | tr '\n' ' ')" "$(grep -v '^property\|^  *\[\|executions' "$W/o" | head -1 | cut -c1-220)"
done
