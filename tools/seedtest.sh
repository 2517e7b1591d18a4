#!/bin/bash
# developer helper: seedtest.sh <seed id> [check ids...]
# In a private copy bind-mounted over /repo: apply the seeded bug, build, run the
# tests, run its demo (must fail), run the checks; then the demo on the unpatched
# tree (must pass).  Nothing outside the scratch copy and /verif's ignored
# folders is written.
id=$1; shift
s=/verif/seeded/$id
w=$(mktemp -d /tmp/sw.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r"
export s w
unshare -m bash -s -- "$@" <<'X'
mount --bind "$w/r" /repo
mkdir -p "$w/tmp"
cd /repo
ok=1
bash /opt/vp/build.sh >$w/b.log 2>&1 || { tail -20 $w/b.log; exit 1; }
timeout 300 bash $s/demo.sh >$w/d0.log 2>&1; r0=$?
git apply $s/patch.diff || exit 1
bash /opt/vp/build.sh >$w/b.log 2>&1 || { grep -m5 error $w/b.log; exit 1; }
bash /opt/vp/test.sh $w/t.json >/dev/null 2>&1
t=$(python3 -c "
import json
d=json.load(open('$w/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(d['passed'])); print('tests-ok' if not m else 'tests-FAIL %s'%m[:5])")
timeout 300 bash $s/demo.sh >$w/d1.log 2>&1; r1=$?
v=BAD; [ $r0 = 0 ] && [ $r1 != 0 ] && [ "$t" = tests-ok ] && v=GOOD
echo "$(basename $s): $v demo clean=$r0 patched=$r1 $t"
[ $r0 = 0 ] || tail -5 $w/d0.log
tail -3 $w/d1.log
for c in "$@"; do
  (cd /verif && timeout 900 ./run.py $c quick >$w/c.log 2>&1; rc=$?
   echo "  check $c rc=$rc $(grep -c '^VIOLATION' $w/c.log) $(grep -m1 '  \[' $w/c.log | cut -c1-300)")
done
X
