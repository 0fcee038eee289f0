#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" : take the diff of the scratch copy /tmp/w and main.go.txt from stdin
id=$1; d=/verif/seeded/$id; mkdir -p "$d"
git -C /tmp/w diff > "$d/patch.diff"
cp /verif/tools/demo_template.sh "$d/demo.sh"; chmod +x "$d/demo.sh"
cat > "$d/main.go.txt"
python3 - "$@" > "$d/meta.json" <<'P'
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
git -C /tmp/w checkout -q -- .
