#!/bin/bash
# tools/mut.sh <checks,comma> <file relative to repo> <python expression on s>   : try a mutant in a scratch copy
d=$(mktemp -d /tmp/mutXXXXXX); cp -a /repo/. $d/
python3 - "$d/$2" "$3" <<'P' || { echo "mutation did not apply"; exit 3; }
import sys
p,e=sys.argv[1:3]; s=open(p).read(); t=eval(e); assert t!=s, "no change"; open(p,'w').write(t); compile(t,p,'exec') if p.endswith('.py') else 0
P
for c in ${1//,/ }; do VERIF_REPO=$d timeout 900 /verif/check $c 2>&1 | grep -v TLC | tail -${TAIL:-4} | cut -c1-${W:-600}; done
rm -rf "$d"
