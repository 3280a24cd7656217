#!/bin/bash
# tools/seedtest.sh ID [--fast] [PROP...]: try one planted change: build, tests, demo with and without, then the checks.
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
fast=; if [ "$1" = --fast ]; then fast=1; shift; fi
d=$here/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
undo() { git -C /repo checkout -q -- . ; }
trap undo EXIT
git -C /repo apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh > /tmp/seed.build 2>&1 && echo "$id build ok" || { echo "$id BUILD FAILS"; tail -20 /tmp/seed.build; exit 1; }
if [ -z "$fast" ]; then bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
names=set(b.get('stable',b.get('tests',b.get('passed',[])))) if isinstance(b,dict) else set(b)
p=set(r.get('passed',[])) if isinstance(r,dict) else set()
print("$id tests: passed",len(p),"missing",sorted(names-p)[:5])
P
fi
(cd /repo && bash "$d/demo.sh" > /tmp/seed.demo 2>&1); echo "$id demo with change: exit $? (want nonzero): $(tail -1 /tmp/seed.demo | cut -c1-150)"
for p in ${@:-$prop}; do (cd $here && ./check $p > /tmp/seed.chk 2>&1); rc=$?; echo "$id check $p: exit $rc $(grep -c ^VIOLATION /tmp/seed.chk) violations: $(grep -A1 ^VIOLATION /tmp/seed.chk | sed -n 2p | cut -c1-200)"; done
undo; trap - EXIT
if [ -z "$fast" ]; then (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash "$d/demo.sh" > /tmp/seed.demo 2>&1); echo "$id demo without: exit $? (want 0) $(tail -1 /tmp/seed.demo | cut -c1-150)"; fi
