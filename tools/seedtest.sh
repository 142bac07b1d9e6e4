#!/bin/bash
# seedtest.sh ID...: demo on clean and patched, check on patched (against /tmp copy)
for i in "$@"; do
S=/verif/seeded/$i
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf /tmp/st; mkdir /tmp/st; cp -a /repo/lib /repo/app /repo/.git /tmp/st/ 
cd /tmp/st; bash $S/demo.sh >/tmp/st.out 2>&1; a=$?
git apply $S/patch.diff || echo NOAPPLY
bash $S/demo.sh >/tmp/st.out2 2>&1; b=$?
cd /verif; echo "== $i ($P): clean=$a patched=$b"; [ $a = 0 ] || tail -5 /tmp/st.out; [ $b = 1 ] || tail -5 /tmp/st.out2
ION_REPO=/tmp/st timeout 900 python3-vt -m vc.check $P 2>&1 | cut -c1-300 | head -8
done
rm -rf /tmp/st
