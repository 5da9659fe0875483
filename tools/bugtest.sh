#!/bin/bash
# usage: bugtest.sh DIR [PROPERTY]   Try one planted change (a folder with
# patch.diff, demo.sh, meta.json) in a scratch copy: does it apply, pass the
# tests, fail its demo, and is it caught?
here=$(cd "$(dirname "$0")/.." && pwd)
dir=$(realpath "$1"); id=$(basename "$dir"); base=${SIM_BASE:-/repo}
prop=${2:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$dir/meta.json")}
w=$(mktemp -d /tmp/bug.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp -a "$base" "$w/repo"; cp -a "$dir" "$w/demo"
rm -f "$w"/demo/*.diff "$w"/demo/meta.json
cd "$w/repo" || exit 2
git checkout -q -- . 
bash "$w/demo/demo.sh" >"$w/o1" 2>&1; a=$?
git apply "$dir/patch.diff" || { echo "$id: does not apply"; exit 1; }
bash "$w/demo/demo.sh" >"$w/o2" 2>&1; b=$?
[ $a = 0 ] || { echo "$id: demo fails on clean tree"; tail -5 "$w/o1"; }
[ $b != 0 ] || { echo "$id: demo passes with the patch"; }
if [ -z "$NOTEST" ]; then
sed "s#/repo#$w/repo#g" /opt/vp/test.sh >"$w/test.sh"
bash "$w/test.sh" "$w/out.json" >"$w/tlog" 2>&1
python3 - "$w/out.json" "$id" <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
r = json.load(open(sys.argv[1]))
p = set(r.get('passed') or [])
miss = [x for x in b if x not in p]
print('%s: %d of %d stable tests pass %s' % (sys.argv[2], len(b) - len(miss), len(b), miss[:5]))
P
fi
if [ -z "$NOCHECK" ]; then
s=$(date +%s)
SIM_REPO="$w/repo" "$here/check" $prop >"$w/clog" 2>&1; c=$?
echo "$id: demo $a/$b, check $prop exit $c after $(( $(date +%s) - s )) s"
grep -m1 VIOLATION "$w/clog"; [ $c = 1 ] || tail -3 "$w/clog"
else echo "$id: demo $a/$b"; fi
