#!/bin/bash
# mut.sh ID FILE OLD NEW [SEED]: run the check ID on a private copy of /repo (bind-mounted) with the first OLD in FILE replaced by NEW
d=$(mktemp -d /tmp/mut.XXXXXX); (cd /repo && tar cf - --exclude=./_build --exclude=./.git .) | tar xf - -C "$d"
python3 - "$d/$2" "$3" "$4" <<'P' || { rm -rf "$d"; exit 9; }
import sys
f,o,n=sys.argv[1:4]; s=open(f,newline='').read()
if '\r\n' in s: o,n=o.replace('\n','\r\n'),n.replace('\n','\r\n')
if s.count(o)<1: print('NOMATCH',o); sys.exit(1)
open(f,'w',newline='').write(s.replace(o,n,1))
P
echo "-- $2: $3 => $4" | tr '\n' ' ' | cut -c1-160
unshare -Urm bash -c "mount --bind $d /repo && cd /verif && timeout 900 python3 check.py $1 --tier quick --seed ${5:-1}" 2>&1 | grep -E "VIOLATION|ERROR|cases,|error:|^\(" | cut -c1-220
rm -rf "$d"
