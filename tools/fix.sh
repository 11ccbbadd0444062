#!/bin/bash
# fix.sh PROP "message": commit the working-tree change in /repo as a fix and record it
set -e
cd /repo; git add -A; git commit -qm "fix: $2"; h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/KNOWN_FINDINGS
echo "$h $2"
