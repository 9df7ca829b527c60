#!/bin/bash
# seedtest.sh ID [notests] : confirm a planted bug in a scratch copy of /repo, and see which check reports it.
# The copy is made under /tmp and removed.
set -u
ID=$1; DIR=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; R=$W/repo
mkdir "$W/demo"; cp "$DIR"/* "$W/demo/"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
sed "s#/repo#$R#g" /opt/vp/test.sh | sed 's#\. /opt/vp/env.sh#. '"$W"'/env.sh#' > "$W/test.sh"
sed "s#/repo#$R#g" /opt/vp/env.sh > "$W/env.sh"
cd "$R"
git checkout -q -- . 
timeout 300 bash "$W/demo/demo.sh" > "$W/d0" 2>&1; a=$?
git apply "$DIR/patch.diff" || { echo "$ID: does not apply"; exit 1; }
timeout 300 bash "$W/demo/demo.sh" > "$W/d1" 2>&1; b=$?
missing=-
if [ "${2:-}" != notests ]; then
  bash "$W/test.sh" "$W/o.json" > "$W/t" 2>&1
  missing=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=set(json.load(open('$W/o.json')).get('passed',[]))
print(len([t for t in b if t not in o]),[t for t in b if t not in o][:3])")
fi
P=$(python3 -c "import json;print(json.load(open('$DIR/meta.json'))['property'])")
cd /verif
mkdir -p "$W/v"; cp -a /verif/run.sh /verif/vlib /verif/checks /verif/known-findings.json "$W/v/"
cd "$W/v"; VERIF_REPO=$R ./run.sh $P > "$W/c" 2>&1; c=$?
echo "$ID: demo clean=$a bug=$b stable-missing=$missing $P -> $c  $(grep -v '^VIOL' "$W/c" | head -1 | cut -c1-230)"
[ $a = 0 ] || tail -3 "$W/d0"; [ $b != 0 ] || tail -3 "$W/d1"
