#!/bin/bash
# dev aid: plant.sh ID [notest] — in a scratch copy of /repo: patch applies, builds, demo fails with it and
# passes without it, and (unless notest) the stable tests of the touched packages still pass.
. /opt/vp/env.sh
S=/verif/seeded/$1; R=/tmp/plant.$1/repo
mkdir -p "$R" && git -C /repo archive HEAD | tar x -C "$R" || exit 1
cd "$R" && git init -q . && git add -A && git -c user.email=a@b -c user.name=a commit -qm b
bash "$S/demo.sh" >/tmp/plant.$1/clean.log 2>&1 || { echo "$1: DEMO FAILS ON CLEAN TREE"; tail -30 /tmp/plant.$1/clean.log; }
git apply "$S/patch.diff" || { echo "$1: PATCH DOES NOT APPLY"; exit 1; }
go build ./... && go vet ./... >/dev/null 2>&1
bash "$S/demo.sh" >/tmp/plant.$1/bug.log 2>&1 && echo "$1: DEMO PASSES WITH BUG"
if [ "$2" != notest ]; then
  go test -json -vet=off -count=1 -p 1 -timeout 10m -tags "small medium large" ./... > /tmp/plant.$1/t.json
  python3 - /tmp/plant.$1/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
names=b if isinstance(b,list) else next(v for v in b.values() if isinstance(v,list) and len(v)>100)
res={}
for l in open(sys.argv[1]):
    try:d=json.loads(l)
    except: continue
    if d.get('Test') and d['Action'] in('pass','fail'):res[d['Package']+'::'+d['Test']]=d['Action']
bad=[k for k,v in res.items() if v=='fail']
print("tests:",len(res),"failed:",bad)
P
fi
grep -h -m3 -E 'demo_test.go:[0-9]+|panic:' /tmp/plant.$1/bug.log
echo "$1: done"
cd /; rm -rf "/tmp/plant.$1"
