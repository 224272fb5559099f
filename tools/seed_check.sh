#!/bin/bash
# Confirms one planted bug in a scratch copy of /repo:  seed_check.sh ID [quick|nocheck]
# patch applies, builds, stable tests pass, demo passes without and fails with it; then runs the property's check on the copy.
id=$1; S=$(dirname "$(dirname "$(realpath "$0")")")/seeded/$id; W=/tmp/sw.$id; T=/tmp/swvp.$id
fail(){ echo "$id: $*"; rm -rf "$W" "$T"; exit 1; }
rm -rf "$W" "$T"; cp -a /repo "$W"; git -C "$W" checkout -q -- .; mkdir -p "$T/demo"
cp /opt/vp/* "$T"/; sed -i "s#/repo#$W#g; s#/opt/vp#$T#g" "$T"/*.sh
cp -a "$S"/. "$T/demo/"; rm -f "$T"/demo/*.diff "$T"/demo/meta.json
bash "$T/build.sh" >"$T/b.log" 2>&1 || fail "base build failed"
(cd "$W" && timeout 300 bash "$T/demo/demo.sh" >"$T/d0.log" 2>&1) || { cat "$T/d0.log" | tail -5; fail "demo fails on the unchanged tree"; }
git -C "$W" apply "$S/patch.diff" || fail "patch does not apply"
bash "$T/build.sh" >"$T/b.log" 2>&1 || { tail "$T/b.log"; fail "build failed with the patch"; }
bash "$T/test.sh" "$T/o.json" >/dev/null 2>&1
python3 - "$T/o.json" <<'P' || fail "stable tests fail with the patch"
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(o['passed'])
if m: print(m); sys.exit(1)
P
(cd "$W" && timeout 300 bash "$T/demo/demo.sh" >"$T/d1.log" 2>&1) && fail "demo passes with the patch"
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
echo "$id: valid (demo: $(tail -1 "$T/d1.log" | cut -c1-150))"
if [ "${2:-quick}" != nocheck ]; then
  VERIF_REPO=$W VERIF_BUILD=$T/build timeout 900 python3 "$(dirname "$S")/../run_check.py" "$p" quick >"$T/c.log" 2>&1; rc=$?
  echo "$id: check $p exit $rc: $(grep -m1 -A1 VIOLATION "$T/c.log" | tail -1 | cut -c1-220)"
fi
rm -rf "$W" "$T"
