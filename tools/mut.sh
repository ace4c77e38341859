#!/bin/bash
# mut.sh ID FILE 'python-expr old' 'new' : runs check ID against a scratch copy of /repo with a textual change
rm -rf /tmp/mutrepo; mkdir -p /tmp/mutrepo; cp -a /repo/nosnoc /tmp/mutrepo/
python3 - "$2" "$3" "$4" <<'P'
import sys
f,a,b=sys.argv[1:4]
p='/tmp/mutrepo/nosnoc/'+f; s=open(p).read()
assert a in s, "pattern not found"
open(p,'w').write(s.replace(a,b,1))
P
[ $? = 0 ] || exit 9
NOSNOC_REPO=/tmp/mutrepo timeout 900 /opt/venv/bin/python /verif/check.py $1 2>&1 | cut -c1-250 | tail -${5:-4}
