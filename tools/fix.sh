#!/bin/bash
# fix.sh PROP "message"  -- commits /repo's tree as a fix and records it
cd /repo || exit 1
. /opt/vp/env.sh
gofmt -l pkg/build pkg/golang pkg/dart pkg/typescript pkg/java 
go build -o /dev/null ./cmd || exit 1
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    s=json.dumps(x)
    return s
want=b.get('stable') or b.get('tests') or b.get('passed') or b
got=t.get('passed') or t
w=set(want if isinstance(want,list) else want.keys()); g=set(got if isinstance(got,list) else [k for k,v in got.items() if v in('pass','passed',True)])
miss=w-g
print('missing' if miss else 'tests ok', miss or '')
assert not miss
P
git commit -qam "fix: $2" && echo "fixed: property=$1 $(git log -1 --format=%h) ${3:-$2}" >> /verif/known_findings.txt
git log -1 --format=%h
git status --short
