#!/bin/bash
# seedtest.sh ID [check]: confirms a planted change in a scratch copy mounted
# over /repo in a private mount namespace (development aid; no check uses it).
id=$1; d=/verif/seeded/$id; sc=/tmp/seed_$id
[ -n "$VF_IN" ] || { rm -rf "$sc"; cp -a /repo "$sc"; VF_IN=1 unshare -m --propagation private bash "$0" "$@"; r=$?; rm -rf "$sc"; exit $r; }
mount --bind "$sc" /repo || exit 9
cd /repo; git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: base build fails"; exit 1; }
bash $d/demo.sh >/tmp/demo_$id.log 2>&1 || { echo "$id: demo fails on the unchanged tree"; cat /tmp/demo_$id.log | tail -5; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/o_$id.json >/tmp/test_$id.log 2>&1
python3 - $id <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o_%s.json'%sys.argv[1]))
b=b.get('stable') or b.get('passed') or b
p=set(o['passed']); m=[t for t in b if t not in p]
print(sys.argv[1], 'tests: %d of %d stable pass' % (len(b)-len(m), len(b)), m[:5])
sys.exit(1 if m else 0)
P
if bash $d/demo.sh >/tmp/demo_$id.log 2>&1; then echo "$id: demo passes with the change"; exit 1; fi
echo "$id: counts ($(tail -1 /tmp/demo_$id.log | cut -c1-120))"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -n "$2" ]; then cd /verif; python3 vf/run.py $prop 2>&1 | tail -4 | cut -c1-220; fi
rm -f /tmp/o_$id.json /tmp/test_$id.log /tmp/demo_$id.log
