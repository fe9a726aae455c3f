#!/bin/bash
# usage: mut.sh file old new checks...   (python-regex free literal replacement)
f=$1; old=$2; new=$3; shift 3
cd /repo; python3 - "$f" "$old" "$new" <<'P'
import sys
p,o,n=sys.argv[1:]; s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert s.count(o)>=1,"pattern not found"
open(p,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] || exit 9
for c in "$@"; do (cd /verif; timeout 900 bin/check $c 2>&1 | cut -c1-260| tail -3; ); done
git -C /repo checkout -q -- .
