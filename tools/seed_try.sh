#!/bin/bash
# seed_try.sh ID...: for each planted change: does it build, pass the tests, fail its demonstration, and does its check report it?
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || b=FAIL
  t=ok; bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1 || t=FAIL
  (cd /repo && bash "$d/demo.sh") >/tmp/seed.$id.demo 2>&1; dm=$?
  (cd /verif && RSIM_OUT=/tmp/seedout RSIM_SECS=${SECS:-} ./check.sh $prop quick) >/tmp/seed.$id.check 2>&1; c=$?
  v=$(grep -a -m1 -A1 '^VIOLATION' /tmp/seed.$id.check | cut -c1-150 | tr '\n' ' ')
  git -C /repo checkout -q -- .
  d0=-; [ -n "$CLEAN" ] && { (cd /repo && bash "$d/demo.sh") >/tmp/seed.$id.demo0 2>&1; d0=$?; }
  echo "$id $prop build=$b test=$t demo=$dm clean-demo=$d0 check=$c $v"
done
(cd /verif && ./build.sh)
