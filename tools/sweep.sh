#!/bin/bash
# sweep.sh TIER "IDS" "SEEDS": runs checks one after another, prints the last lines
cd "$(dirname "$0")/.."
for id in $2; do for s in $3; do
  echo "== $id seed $s"; VERIF_SEED=$s python3 check.py $id --tier $1 | tail -4
done; done
