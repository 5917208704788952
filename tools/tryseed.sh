#!/bin/bash
# tryseed.sh ID... : build+test+demo each seed in /tmp/wt (a copy of /repo); dev tool
for id in "$@"; do
  S=/verif/seeded/$id
  cd /tmp/wt && git checkout -q -- . && git apply $S/patch.diff || { echo "$id: NOAPPLY"; continue; }
  bash /tmp/bld.sh >/tmp/bld.out 2>&1 || { echo "$id: NOBUILD"; tail -5 /tmp/bld.out; continue; }
  grep -q "FAILED\|error:" /tmp/bld.out && { echo "$id: NOBUILD"; cat /tmp/bld.out; continue; }
  timeout 60 bash $S/demo.sh >/tmp/demo.out 2>&1; d=$?
  t=$( [ "$NOTEST" ] && echo skipped || bash /tmp/tst.sh | grep -E "tests passed|\(Failed\)|Timeout" | tr '\n' ' ')
  git checkout -q -- .
  echo "$id: demo=$d tests: $t"
  tail -2 /tmp/demo.out
done
if [ -z "$NOBACK" ]; then
bash /tmp/bld.sh >/dev/null 2>&1
for id in "$@"; do timeout 60 bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1; d=$?; echo "$id: clean demo=$d"; [ $d = 0 ] || tail -2 /tmp/demo.out; done
fi
