#!/bin/bash
# mut.sh CHECK FILE PYEXPR-old PYEXPR-new : try a mutation in /tmp/w/m
cd /tmp/w/m && git checkout -q -- . && git -C /tmp/w/m fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
python3 - "$2" "$3" "$4" <<'P'
import sys
f,o,n=sys.argv[1:]
s=open(f).read()
assert o in s,"pattern not found"
open(f,"w").write(s.replace(o,n,int(__import__('os').environ.get('CNT','1'))))
P
[ $? = 0 ] || exit 9
(. /opt/vp/env.sh; go build -o /dev/null . ) || exit 8
VMON_REPO=/tmp/w/m timeout 900 /verif/run.sh $1 2>&1 | cut -c1-400 | tail -${T:-8}
