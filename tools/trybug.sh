#!/bin/bash
# trybug.sh ID [notest]: in a scratch copy, check that the planted bug applies, passes the stable tests, is shown by its demo, and is caught.
V=$(dirname "$(dirname "$(realpath "$0")")"); ID=$1
WT=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf "$WT"' EXIT
cp -a /repo "$WT/repo"; cp -a "$V/seeded/$ID" "$WT/seed"
cd "$WT/repo"
bash "$WT/seed/demo.sh" >"$WT/d0" 2>&1; R0=$?
git apply "$WT/seed/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$WT/seed/demo.sh" >"$WT/d1" 2>&1; R1=$?
echo "$ID: demo unchanged=$R0 patched=$R1"; [ $R0 = 0 ] || tail -5 "$WT/d0"; tail -2 "$WT/d1"
P=$(python3 -c "import json;print(json.load(open('$WT/seed/meta.json'))['property'])")
(cd "$V" && VSA_EVIDENCE="$WT/ev" VMOE_REPO="$WT/repo" python3 -m vsa "$P"); echo "$ID: check $P rc=$?"
if [ "$2" != notest ]; then
  sed "s#/repo#$WT/repo#g; s#/opt/vp/support/env.sh#$WT/env.sh#; s#/opt/vp/reports#$WT/reports#" /opt/vp/test.sh >"$WT/test.sh"; sed "s#/repo#$WT/repo#g" /opt/vp/support/env.sh >"$WT/env.sh"
  flock /tmp/trybug.lock timeout 900 bash "$WT/test.sh" "$WT/out.json" >"$WT/log" 2>&1
  python3 - "$WT/out.json" "$ID" <<'P'
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
p = set(o.get('passed', [])) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v in ('passed', True)}
m = [x for x in b if x not in p]
print(f'{sys.argv[2]}: stable tests not passing: {len(m)} of {len(b)}', m[:4])
P
fi
