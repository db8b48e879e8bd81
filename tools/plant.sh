#!/bin/bash
# plant.sh <id> [check options]: confirms a planted bug in a scratch copy of /repo, then runs its property's check.
# Works in a private mount namespace in which /tmp/plant/repo is seen as /repo; the real /repo is not touched.
id=$1; shift
if [ -z "$PLANT_NS" ]; then
  [ -d /tmp/plant/repo ] || { mkdir -p /tmp/plant; cp -a /repo /tmp/plant/repo; }
  head=$(git -C ${FROM:-/repo} rev-parse HEAD)
  git -C /tmp/plant/repo checkout -q -- . && git -C /tmp/plant/repo fetch -q ${FROM:-/repo} HEAD && git -C /tmp/plant/repo reset -q --hard "$head"
  exec env PLANT_NS=1 unshare -m bash "$0" "$id" "$@"
fi
mount --make-rprivate / && mount --bind /tmp/plant/repo /repo || exit 9
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
dd=$(mktemp -d); cp -r $d/. $dd/; rm -f $dd/*.diff $dd/meta.json
timeout 300 bash $dd/demo.sh >/tmp/plant/$id.clean 2>&1; clean=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh /tmp/plant/$id.json >/tmp/plant/$id.build 2>&1
  tests=$(python3 -c "import json;d=json.load(open('/tmp/plant/$id.json'));print(len(d['passed']),len(d['failed']))")
fi
timeout 300 bash $dd/demo.sh >/tmp/plant/$id.bug 2>&1; bug=$?
res=skipped
if [ -z "$NOCHECK" ]; then
  (cd /verif && timeout 900 python3 check.py $prop "$@" >/tmp/plant/$id.check 2>&1); res=$?
fi
git checkout -q -- .
rm -rf "$dd"
echo "$id $prop: demo clean=$clean bug=$bug tests=[$tests] check=$res $(grep -c ^VIOLATION /tmp/plant/$id.check 2>/dev/null) violations: $(grep -o '^  \[[^]]*\]' /tmp/plant/$id.check 2>/dev/null | sort | uniq -c | head -4 | tr '\n' ' ')"
