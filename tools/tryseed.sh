#!/bin/bash
# tryseed.sh ID [CHECK...]: is the planted bug valid (builds, passes the tests, demo tells it), and do the checks see it
V=${VROOT:-/verif}; S=$V/seeded/$1; T=$(mktemp -d /tmp/tryseed.XXXXXX); mkdir $T/repo; trap 'rm -rf "$T"' EXIT
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); shift_id=$1; shift
cp -a ${SRCREPO:-/repo}/. "$T/repo"; mkdir "$T/s"; cp -r "$S"/. "$T/s"; rm -f "$T"/s/*.diff "$T"/s/meta.json
(cd "$T/repo" && timeout 300 bash "$T/s/demo.sh" >"$T/clean.log" 2>&1); a=$?
git -C "$T/repo" apply "$S/patch.diff" || { echo "$shift_id: patch does not apply"; exit 1; }
(cd "$T/repo" && timeout 300 bash "$T/s/demo.sh" >"$T/bad.log" 2>&1); b=$?
echo "$shift_id: demo clean=$a patched=$b"; [ $a = 0 ] || tail -5 "$T/clean.log"; [ $b != 0 ] && [ $b != 3 ] || tail -5 "$T/bad.log"
for c in ${@:-$P}; do VERIF_REPO="$T/repo" VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 $V/run_check.py $c >"$T/c.log" 2>&1; r=$?; echo "$shift_id: check $c -> $r $(grep -m1 VIOLATION "$T/c.log") $(grep -c VIOLATION "$T/c.log")"; [ $r = 2 ] && tail -5 "$T/c.log"; done
