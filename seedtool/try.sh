#!/bin/bash
# try.sh ID...: demo on clean tree, then with the patch: build, demo, the property's check, (TESTS=1) the test suite
cd /repo
for id in "$@"; do S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash $S/demo.sh >/tmp/demo_clean.txt 2>&1; c=$?
git apply $S/patch.diff || { echo "$id: does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/b.txt 2>&1; b=$?
bash $S/demo.sh >/tmp/demo_bug.txt 2>&1; d=$?
(cd /verif && python3-vt check.py $P quick > /tmp/chk_$id.txt 2>&1); k=$?
t=-
if [ -n "${TESTS:-}" ]; then bash /opt/vp/test.sh /tmp/t_$id.json >/dev/null 2>&1; t=$(python3 /verif/seedtool/cmp.py /tmp/t_$id.json); fi
git checkout -q -- .
echo "$id $P clean_demo=$c build=$b bug_demo=$d check=$k tests=$t :: $(grep -a VIOLATION /tmp/chk_$id.txt | cut -c1-120) :: $(grep -ac FAILED /tmp/chk_$id.txt)"
tail -2 /tmp/demo_bug.txt | cut -c1-200; [ $c != 0 ] && tail -5 /tmp/demo_clean.txt | cut -c1-300
done
exit 0
