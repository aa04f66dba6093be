#!/bin/bash
# usage: mut.sh <check> <file> <python-expr s->s>  : applies an in-memory edit to /repo, runs the check, reverts
cd /repo; python3 - "$2" "$3" <<'P' || { echo "  mutation did not apply"; exit; }
import sys,re
p,e=sys.argv[1:3]; s=open(p).read(); t=eval(e)
if t==s: sys.exit(1)
open(p,'w').write(t)
P
(cd /verif; bash check.sh $1 | sed -n '1,4p;$p' | cut -c1-260); git -C /repo checkout -q -- .
