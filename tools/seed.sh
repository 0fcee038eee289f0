#!/bin/bash
# seed.sh ID PROP FILE OLD NEW NEEDS BREAKS < main.go : plant one replacement (in a fresh scratch copy) and test it
[ -d /tmp/w ] || cp -a /repo /tmp/w
git -C /tmp/w checkout -q -- .; git -C /tmp/w pull -q 2>/dev/null
[ "$(git -C /tmp/w rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { rm -rf /tmp/w; cp -a /repo /tmp/w; }
python3 - "$3" "$4" "$5" <<'P' || exit 1
import sys
f,o,n=sys.argv[1:4]
p='/tmp/w/symbolic/'+f
if '/' in f: p='/tmp/w/'+f
t=open(p).read()
assert t.count(o)>=1,'pattern not found'
i=0
open(p,'w').write(t.replace(o,n,1))
P
bash /verif/tools/mkseed.sh "$1" "$2" "$6" "$7"
bash /verif/tools/seedtest.sh "$1"
