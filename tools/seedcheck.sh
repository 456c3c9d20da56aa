#!/bin/bash
# seedcheck.sh ID [CHECK...]: validates seeded/ID in a scratch copy bound over
# /repo in a private mount namespace (build, stable tests, demo on both trees),
# then runs the given checks (default: the bug's property) against the copy.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
S=$V/seeded/$id; W=$(mktemp -d /tmp/seedcheck.XXXXXX); trap 'rm -rf "$W"' EXIT
checks=${*:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $S/meta.json)}

mkdir $W/repo && tar -C /repo --exclude=./_build/test -cf - . | tar -C $W/repo -xf -
(cd $W/repo && bash -c 'cd '$W'/repo && unshare -m sh -c "mount --bind '$W/repo' /repo && cd /repo && bash '$S'/demo.sh"' > $W/demo0.log 2>&1) || { echo "$id: demo FAILS on unchanged"; tail -3 $W/demo0.log; }
git -C $W/repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
unshare -m sh -c "mount --bind $W/repo /repo && cd /repo && bash /opt/vp/build.sh >$W/build.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1; bash $S/demo.sh >$W/demo1.log 2>&1 && echo 'demo PASSES with patch'; true"
python3 - $W/out.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def ids(x):
    for k in ('stable','passed','stable_passed','tests'):
        if k in x: return set(x[k])
    raise SystemExit(list(x))
m=ids(b)-set(o['passed'])
print('tests missing:',len(m),sorted(m)[:4])
PY
else
unshare -m sh -c "mount --bind $W/repo /repo && cd /repo && bash $S/demo.sh >$W/demo1.log 2>&1 && echo 'demo PASSES with patch'; true"
fi
for c in $checks; do
  PNUT_EVIDENCE=$W/ev PNUT_REPO=$W/repo timeout 900 python3 $V/mc/main.py $c quick > $W/$c.log 2>&1; echo "$id $c rc=$? $(grep -c '^VIOLATION' $W/$c.log) $(tail -1 $W/$c.log | cut -c1-150)"
done
