#!/bin/bash
# tools/seedcheck.sh ID [nocheck]: confirms a planted bug in a scratch copy: demo passes without, fails with the patch, the stable tests pass, and the property's check catches it.
S=/verif/seeded/$1; T=/tmp/sc.$1
rm -rf "$T"; cp -a /repo "$T"; cd "$T"
mv $S /tmp/sd.$1 ; bash /tmp/sd.$1/demo.sh >/tmp/sc.$1.log 2>&1; a=$?
git apply /tmp/sd.$1/patch.diff || echo PATCH-FAILS
bash /tmp/sd.$1/demo.sh >>/tmp/sc.$1.log 2>&1; b=$?
mv /tmp/sd.$1 $S
echo "$1: demo clean=$a (want 0) patched=$b (want non-0)"
tail -1 /tmp/sc.$1.log
if [ "$2" != nocheck ]; then
 p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 cd /verif; VERIF_REPO=$T timeout 900 python3 check.py $p > /tmp/sc.$1.chk 2>&1; echo "$1: check $p exit $? : $(grep -E '^VIOLATION|  [a-z_0-9]*: ' /tmp/sc.$1.chk | head -3 | tr '\n' ' ')"
fi
rm -rf "$T"
