#!/bin/bash
# tools/seed_try.sh ID [notest]   validate a planted bug in a scratch copy of /repo (development aid; no check uses it)
set -u
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; S=$V/seeded/$ID; W=$(mktemp -d /tmp/seed_${ID}_XXXX); cp -a /repo $W/repo; mkdir $W/demo; cp $S/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cat > $W/run.sh <<EOS
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BASE BUILD FAILED"
bash $W/demo/demo.sh >$W/d0 2>&1; echo "demo on base: \$? (want 0)"
git apply $S/patch.diff || { echo "PATCH FAILED"; exit 1; }
bash /opt/vp/build.sh >$W/b 2>&1 || { echo "BUILD FAILED"; tail -5 $W/b; }
bash $W/demo/demo.sh >$W/d1 2>&1; echo "demo on patched: \$? (want nonzero)"; tail -3 $W/d1
if [ "${2:-}" != notest ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; python3 -c "
import json;s=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('$W/t.json'))['passed']);print('tests missing:',[x for x in s if x not in p])"; fi
EOS
bash $V/tools/ns.sh $W/repo bash $W/run.sh; rm -rf "$W"
