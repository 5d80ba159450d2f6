#!/bin/bash
# tools/runseed.sh ID [PROPERTY...]: run checks on a scratch copy with the planted bug
D=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/rs-XXXXXX)
trap 'rm -rf "$W"' EXIT
git clone -q /repo "$W/r" && git -C "$W/r" apply "$D/seeded/$1/patch.diff" || exit 2
P=${@:2}
[ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$D/seeded/$1/meta.json'))['property'])")
for p in $P; do
    (NXAS_REPO=$W/r VERIF_EVIDENCE=$W/ev-$p python3-vt "$D/check.py" $p > "$W/$p.out" 2>&1; echo "$1 $p rc=$?"; grep -B3 "^VIOLATION\|^analysis" "$W/$p.out" | cut -c1-260 | tail -4) &
done
wait
