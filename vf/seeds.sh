#!/bin/bash
# run a check with several seeds: vf/seeds.sh C02 [tier]
for s in 2 3 4 5 6; do VF_EVIDENCE=/verif/build/ev python3 /verif/check.py $1 --seed $s --tier ${2:-quick} | grep -v "^note" | cut -c1-500 || true; done
