#!/bin/bash
# mut.sh PROP FILE 's/..../' : run check on a mutated copy
rm -rf /tmp/mut; mkdir /tmp/mut; cp -a /repo/lib /repo/app /tmp/mut/
sed -i -E "$3" /tmp/mut/$2
if cmp -s /tmp/mut/$2 /repo/$2; then echo "NO CHANGE"; exit; fi
cd /verif; ION_REPO=/tmp/mut timeout 900 python3-vt -m vc.check $1 ${@:4}
