#!/bin/bash
# t.sh ID [seed...]: run a check on several seeds, short output
id=$1; shift; for s in ${@:-1}; do echo "== $id seed $s"; timeout 900 python3 /verif/check.py $id --seed $s 2>&1 | cut -c1-${W:-600} | head -${L:-60}; done
