#!/bin/bash
# seedtest.sh ID [checks...]: confirms a planted bug on /repo and runs the given checks against it
i=$1; shift
d=/verif/seeded/$i
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 9; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git -C /repo apply $d/patch.diff || { echo "$i: patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; t=$(tail -1 /tmp/t.log)
(cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); c=$?
echo "$i: demo clean=$a build=$b tests='$t' demo patched=$c"
for k in "$@"; do
  bash /verif/check.sh $k quick >/tmp/c.log 2>&1; echo "   check $k -> $? $(grep -a -m1 VIOLATION /tmp/c.log) $(grep -a -m1 -- '--- deviation' /tmp/c.log)"
done
git -C /repo checkout -- .
