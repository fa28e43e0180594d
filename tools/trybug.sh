#!/bin/bash
# Dev tool: run the check of a planted bug's property (or another one) against a patched scratch copy.
# usage: trybug.sh SEED-ID [PROPERTY]
cd "$(dirname "$0")/.."
id=$1
prop=${2:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
c=$(mktemp -d /tmp/w/bug.XXXXXX)
git clone -q /repo $c/r && git -C $c/r apply $PWD/seeded/$id/patch.diff && VP_SRC=$c/r/src python3 run.py $prop quick > $c/out 2>&1
echo "$id $prop rc=$?"; grep -E "VIOLATION|^#|<-" $c/out | head -${LINES_MAX:-12}
rm -rf "$c"
