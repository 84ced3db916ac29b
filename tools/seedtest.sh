#!/bin/bash
# seedtest.sh ID [full]: apply /verif/seeded/ID to /repo, build, demo, check, (full: stable tests), undo.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 9; }
DD=$(mktemp -d /tmp/seedd.XXXX); cp -r $D/. $DD; rm -f $DD/*.diff $DD/meta.json
bash /opt/vp/build.sh >/tmp/seed.b0 2>&1 || echo BASEBUILD-FAIL
bash $DD/demo.sh >/tmp/seed.d0 2>&1; echo "demo clean rc=$? ($(tail -1 /tmp/seed.d0))"
git apply $D/patch.diff || { echo APPLY-FAIL; exit 8; }
trap 'git -C /repo checkout -- .; rm -rf $DD' EXIT
bash /opt/vp/build.sh >/tmp/seed.b1 2>&1 || { echo BUILD-FAIL; tail -5 /tmp/seed.b1; exit 7; }
bash $DD/demo.sh >/tmp/seed.d1 2>&1; echo "demo patched rc=$? ($(tail -1 /tmp/seed.d1))"
cd /verif; [ "$2" = nocheck ] || { VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $P 2>&1 | grep -v KNOWN | tail -2; echo "check rc=${PIPESTATUS[0]}"; }
if [ "$2" = full ]; then cd /repo; bash /opt/vp/test.sh /tmp/seed.out.json >/dev/null 2>&1; python3 -c "
import json;o=json.load(open('/tmp/seed.out.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('stable keys',list(b)[:5]); s=set(sum([v for v in b.values() if isinstance(v,list)],[])) ; print('passed',len(o['passed']),'missing',sorted(s-set(o['passed']))[:5])"; fi
