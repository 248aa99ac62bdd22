#!/bin/bash
# mut.sh FILE PYTHON-EXPR(s->s) CHECKS...: runs checks against a changed copy of /repo (in /tmp/mut.$$)
f=$1; e=$2; shift 2
w=/tmp/mut.$$
rm -rf "/tmp/mut.$$"
mkdir -p $w && cp -a /repo/src /repo/setup.py $w/
python3 - "$w/$f" "$e" <<'P' || exit 3
import sys
p,e=sys.argv[1:]
s=open(p,newline='').read()
crlf='\r\n' in s
s=s.replace('\r\n','\n')
ns=eval(e)(s) if e.startswith('lambda') else s
if not e.startswith('lambda'):
    a,b=e.split('=>',1)
    assert a in s, 'pattern not found: '+a
    ns=s.replace(a,b)
assert ns!=s
open(p,'w',newline='').write(ns.replace('\n','\r\n') if crlf else ns)
P
for c in "$@"; do VERIF_MINIMISE=${VERIF_MINIMISE:-5} VERIF_REPO=$w timeout 900 /opt/venv/bin/python -m dst.check $c 2>&1 | cut -c1-400; done
rm -rf "/tmp/mut.$$"
