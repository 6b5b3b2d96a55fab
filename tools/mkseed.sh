#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what_it_breaks" -- the change must already be in /tmp/seedwt/repo; the demo in /verif/seeded/ID
# Takes the diff, checks that it builds, passes the stable tests and that demo.sh distinguishes the trees.
set -u
id=$1; prop=$2; needs=$3; what=$4
W=/tmp/seedwt/repo; S=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
mkdir -p "$S"
git -C $W diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "empty diff"; exit 1; }
python3 - "$S/meta.json" "$prop" "$needs" "$what" <<'P'
import json, sys
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1], "w"), indent=1)
P
chmod +x "$S/demo.sh"
T=$(mktemp -d); cp -a "$S/." "$T/"; rm -f "$T/patch.diff" "$T/meta.json"
(cd $W && bash "$T/demo.sh" >"$T/bad.log" 2>&1); bad=$?
git -C $W stash -q
(cd $W && bash "$T/demo.sh" >"$T/good.log" 2>&1); good=$?
git -C $W stash drop -q
echo "$id: demo unchanged=$good patched=$bad"
[ $good -eq 0 ] || tail -5 "$T/good.log"
tail -2 "$T/bad.log"
git -C ${SEED_REPO:-/repo} apply --check "$S/patch.diff" && echo applies
rm -r "$T"
