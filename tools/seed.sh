#!/bin/bash
# confirm a planted bug: /repo holds the change (uncommitted), /verif/seeded/$1 holds demo.sh; $2.. = properties whose checks to run
id=$1; shift
d=/verif/seeded/$id
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed.build; git -C /repo checkout -- .; exit 2; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/seed.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b['stable'] if 'stable' in b else b.get('passed') or b
names=[x if isinstance(x,str) else x.get('id') or x.get('name') for x in s]
p=set(t['passed'])
m=[n for n in names if n not in p]
print('baseline',len(names),'missing',len(m),m[:3])
P
(cd /repo && bash $d/demo.sh >/tmp/seed.demo 2>&1); echo "demo with patch: exit $? (want nonzero)"; tail -2 /tmp/seed.demo
for p in "$@"; do (cd /verif && timeout 900 python3-vt -m vc.run $p > /tmp/seed.$p 2>&1; echo "check $p exit $?"; grep -c VIOLATION /tmp/seed.$p; grep VIOLATION /tmp/seed.$p | head -3); done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
(cd /repo && bash $d/demo.sh >/tmp/seed.demo 2>&1); echo "demo unpatched: exit $? (want 0)"; tail -2 /tmp/seed.demo
