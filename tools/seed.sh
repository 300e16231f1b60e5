#!/bin/bash
# seed.sh ID [fast]: validates the planted bug seeded/ID (patch.diff, demo.sh, meta.json) in a copy of /repo, and runs the check of its property.
id="$1"; d=/verif/seeded/$id; R=/tmp/seedrepo
mkdir -p /tmp/seedwork; rm -rf /tmp/seedrepo; cp -a /repo $R; git -C $R checkout -q -- . 
sed -e "s#/opt/vp/work#/tmp/seedwork#g" -e "s#cd /repo#cd $R#" /opt/vp/test.sh > /tmp/seed_test.sh
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
res=""
(cd $R && bash $d/demo.sh >/tmp/seed_clean.log 2>&1) && res="$res demo-clean=ok" || res="$res DEMO-CLEAN-FAILS"
git -C $R apply $d/patch.diff || { echo "$id: patch doesn't apply"; exit 1; }
if [ "$2" != fast ]; then
(. /opt/vp/env.sh; cd $R && go build ./...) >/tmp/seed_build.log 2>&1 && res="$res build=ok" || res="$res BUILD-FAILS"
rm -f /tmp/seed_out.json; bash /tmp/seed_test.sh /tmp/seed_out.json >/tmp/seed_test.log 2>&1
python3 - <<P && res="$res tests=ok" || res="$res TESTS-FAIL"
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
b=b['stable']
sys.exit(0 if set(b)<=set(o['passed']) else 1)
P
fi
(cd $R && bash $d/demo.sh >/tmp/seed_bug.log 2>&1) && res="$res DEMO-BUG-PASSES" || res="$res demo-bug=fails"
t0=$SECONDS
(cd /verif && VERIF_REPO=$R timeout 900 bin/vse check $prop quick >/tmp/seed_check.log 2>&1); rc=$?
grep -q "^VIOLATION property=$prop " /tmp/seed_check.log && [ $rc = 1 ] && res="$res CAUGHT" || res="$res MISSED(rc=$rc)"
echo "$id $prop:$res $((SECONDS-t0))s" | tee -a /tmp/seeds.log
