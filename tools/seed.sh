#!/bin/bash
# tools/seed.sh ID [CHECK...]: validates a planted bug in a private mount namespace and runs the checks against it
# (development aid; the checks themselves never read seeded/)
ID=$1; shift
D=/verif/seeded/$ID; S=/tmp/w/seed.$ID
CH="$*"; [ -n "$CH" ] || CH=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/w; rm -rf "$S"; cp -a /repo "$S"; rm -rf "$S.d"; cp -a "$D" "$S.d"; rm -f "$S.d"/*.diff "$S.d"/meta.json
unshare -m bash -c '
mount --bind "$1" /repo; cd /repo
one() { bash /opt/vp/build.sh >/tmp/w/seed.'$ID'.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/w/seed.'$ID'.log; exit 1; }; }
one
timeout 300 bash "$2.d/demo.sh" >/tmp/w/seed.'$ID'.demo0 2>&1; r0=$?
git apply "$3/patch.diff" || { echo "PATCH FAILED"; exit 1; }
one
bash /opt/vp/test.sh /tmp/w/seed.'$ID'.json >/dev/null 2>&1
miss=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open("/tmp/w/seed.'$ID'.json"))["passed"]
print(",".join(x for x in b if x not in o))
P
)
timeout 300 bash "$2.d/demo.sh" >/tmp/w/seed.'$ID'.demo1 2>&1; r1=$?
echo "'$ID': demo unchanged=$r0 (want 0) patched=$r1 (want !=0) stable-missing=[$miss]"
cd /verif
for c in '"$CH"'; do cp evidence/$c.json /tmp/w/ev.$c.'$ID' 2>/dev/null; python3 check.py $c > /tmp/w/seed.'$ID'.$c 2>&1; rc=$?; echo "   $c exit=$rc $(grep -m2 "violated:\|ERROR\|Error" /tmp/w/seed.'$ID'.$c | cut -c1-220)"; cp /tmp/w/ev.$c.'$ID' evidence/$c.json 2>/dev/null; done
' _ "$S" "$S" "$D"
rm -rf "$S" "$S.d" /tmp/w/ev.*.$ID /tmp/w/seed.$ID.*
