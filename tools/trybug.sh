#!/bin/bash
# trybug.sh ID: runs the demonstration of a planted bug without and with it, and then its property's check, on a scratch copy /tmp/pb
id=$1; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /tmp/pb && git checkout -q -- . || exit 2
bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "demo without: $?"
git apply $d/patch.diff || exit 2
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "demo with: $?"; tail -2 /tmp/demo1.log
if [ "$2" != demo ]; then cd /verif; VERIF_SEED=${SEED:-1} VERIF_REPO=/tmp/pb timeout 900 python3 check.py $p --tier quick 2>&1 | tail -4; echo "check: ${PIPESTATUS[0]}"; fi
git -C /tmp/pb checkout -q -- .
