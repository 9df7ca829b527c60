#!/bin/bash
# onemut.sh FILE OLD NEW CHECK...   one replacement in a scratch copy of /repo, then the checks on it
d=$(mktemp -d /tmp/onemut.XXXXXX); cp -a /repo/. "$d/"; rm -rf "$d/openptv_python/__pycache__"
python3 - "$d/openptv_python/$1" "$2" "$3" <<'P' || exit 3
import sys
p,o,n=sys.argv[1:]; s=open(p).read(); assert s.count(o)>=1,"not found"; open(p,"w").write(s.replace(o,n,1))
P
shift 3
for c in "$@"; do VERIF_REPO=$d ./run.sh $c 2>&1 | grep -v "^ \|^Trace" | cut -c1-300; done
rm -rf "$d"
