#!/bin/bash
# tools/seed_check.sh ID [PROP]   run the property's quick check against a planted bug (in a scratch copy of /repo)
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; S=$V/seeded/$ID; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=$(mktemp -d /tmp/seedc_${ID}_XXXX); git clone -q /repo $W/repo; git -C $W/repo apply $S/patch.diff || echo PATCH FAILED
mkdir -p $W/v; cp -a $V/check.py $V/registry.py $V/harness $V/tools $V/*.json* $W/v/ 2>/dev/null
bash $V/tools/ns.sh $W/repo bash -c "cd $W/v && timeout 900 python3 check.py $P --tier quick; echo exit \$?" 2>&1 | tail -4; rm -rf "$W"
