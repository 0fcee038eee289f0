#!/bin/bash
# seedtest.sh ID : confirm a planted bug (applies, builds, passes tests, demo discriminates) and run its property's check
id=$1; d=/verif/seeded/$id
w=/tmp/seedw.$id; rm -rf "$w"; cp -a /repo "$w"; cd "$w"; git checkout -q -- .
( cd "$w" && bash "$d/demo.sh" >/tmp/demo.clean.$id 2>&1 ); c=$?
git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
. /opt/vp/goenv.sh
go build ./... || { echo "$id: NO BUILD"; exit 1; }
go test ./... 2>&1 | grep -E '^(--- FAIL|FAIL)' > /tmp/tests.$id; 
( cd "$w" && bash "$d/demo.sh" >/tmp/demo.bug.$id 2>&1 ); b=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
mkdir -p /tmp/sv.$id/evidence; cp /verif/known-findings.txt /tmp/sv.$id/ 2>/dev/null
( . /verif/env.sh; /verif/.bin/smcheck -prop $prop -repo "$w" -verif /tmp/sv.$id > /tmp/chk.$id 2>&1 ); k=$?
echo "$id prop=$prop demo clean=$c bug=$b tests_failed=$(wc -l < /tmp/tests.$id) check_exit=$k"
[ -n "$V" ] && { tail -3 /tmp/demo.bug.$id; head -3 /tmp/tests.$id; grep -v '^VIOL' /tmp/chk.$id | head -${V}; }
rm -rf "$w" /tmp/sv.$id
