#!/bin/bash
# seedtest.sh ID [nocheck]: apply seeded/ID to /repo, run the stable tests, the demo and the property's quick check; undo.
cd /verif; d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 2; }
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/w/demo0.txt 2>&1); a=$?
git -C /repo apply $d/patch.diff || { echo "does not apply"; exit 2; }
if [ "$3" != notest ]; then
bash /opt/vp/build.sh >/tmp/w/sb.txt 2>&1; bash /opt/vp/test.sh /tmp/w/st.json >/tmp/w/stt.txt 2>&1
t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/w/st.json'))
b=b.get('stable',b.get('passed',b)) if isinstance(b,dict) else b
m=set(b)-set(r['passed']);print(len(m),'of',len(b),'stable tests fail',sorted(m)[:4])")
fi
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/w/demo1.txt 2>&1); b=$?
c=skipped
if [ "$2" != nocheck ]; then VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p >/tmp/w/sc_$1.txt 2>&1; c="exit $? $(grep -c VIOLATION /tmp/w/sc_$1.txt) violation lines; $(grep -E 'refuted|VIOLATION' /tmp/w/sc_$1.txt | head -2 | cut -c1-150 | tr '\n' ';')"; fi
git -C /repo checkout -- .
echo "$1 [$p] demo clean=$a patched=$b | $t | check: $c"
