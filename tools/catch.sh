#!/bin/bash
# which seeds does its check catch: catch.sh [ids]
cd /verif
for d in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
 rm -rf /tmp/m; mkdir /tmp/m; git -C /repo archive HEAD | tar x -C /tmp/m; (cd /tmp/m && patch -sp1 < /verif/seeded/$d/patch.diff)
 o=$(VERIF_REPO=/tmp/m timeout 900 python3-vt check.py $p 2>&1); rc=$?; echo "$d rc=$rc $(echo "$o" | grep -a VIOLATION | head -1 | cut -c1-200) $( [ $rc = 1 ] || echo "$o" | tail -3 | cut -c1-300)"; rm -rf /tmp/m; done
