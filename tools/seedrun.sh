#!/bin/bash
# seedrun.sh ID [check]: try the planted bug /verif/seeded/ID on a copy of /repo mounted over /repo in a private namespace
id=$1; shift
D=/verif/seeded/$id
W=$(mktemp -d /tmp/seedrun.XXXXXX)
cp -a /repo $W/repo
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -Urm bash -s <<X
mount --bind $W/repo /repo || exit 9
cd /repo
git config --global --add safe.directory /repo 2>/dev/null
cp -a $D $W/demo; rm -f $W/demo/*.patch $W/demo/*.diff $W/demo/meta.json
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo "$id: clean build fails"; exit 1; }
timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; r0=\$?
git apply $D/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
t=\$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/t.json'))
s=b['stable']
p=set(o['passed']); print(len([x for x in s if x not in p]),'of',len(s),'fail')" 2>&1 | tail -1)
timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; r1=\$?
echo "$id [$prop] demo clean=\$r0 patched=\$r1; stable tests: \$t"
[ \$r0 -ne 0 ] && tail -5 $W/d0.log
[ -n "$1" ] && (cd /verif; VERIF_SEED=\${VERIF_SEED:-1} timeout 900 python3 check.py ${2:-$prop} --tier quick > $W/c.log 2>&1; echo "   check ${2:-$prop} rc=\$?"; grep -m3 VIOLATION $W/c.log | cut -c1-220; grep -A1 -m1 VIOLATION $W/c.log | tail -1 | cut -c1-300)
X
rm -rf "$W"
