#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted bug and run the check of its property against it
d=/verif/seeded/$1; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
cd /repo; t=$(mktemp -d); cp $d/demo.* $d/h.py $t/; for f in $d/*; do case $f in *.diff|*.json) ;; *) cp -r $f $t/ ;; esac; done
sh $t/demo.sh > $t/o 2>&1; a=$?
[ $a = 0 ] || { echo "$1: demo fails on the clean tree:"; tail -5 $t/o; }
git apply $d/patch.diff || exit 2
sh $t/demo.sh > $t/o 2>&1; b=$?
miss=skipped
if [ "$2" != notests ]; then miss=$(/tmp/chk.sh 2>&1 | grep "stable missing"); fi
cd /verif; s=$(date +%s); VERIF_SEED=1 timeout 900 python3-vt -m pbt.core $prop > $t/c 2>&1; c=$?
git -C /repo checkout -q -- .
echo "$1: clean $a, patched $b ($(tail -1 $t/o | cut -c1-150)); $miss; check $prop exit $c in $(( $(date +%s) - s )) s: $(head -1 $t/c | cut -c1-220)"
/bin/rm -rf $t
