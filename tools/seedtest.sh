#!/bin/bash
# seedtest.sh ID [check...]: validates a planted bug in a private copy of /repo bound over /repo in its own
# mount namespace: demo on the unchanged tree, patch, build + stable tests, demo again, the named checks.
ID=$1; shift
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seedwt.XXXX)
cp -a /repo "$W/repo"; mkdir "$W/rep"
unshare -m bash -c "
mount --make-rprivate /
mount --bind $W/repo /repo
mkdir -p /opt/vp/reports; mount --bind $W/rep /opt/vp/reports
cd /repo
git checkout -q -- . 
bash $D/demo.sh >$W/demo0 2>&1; echo demo-unpatched \$?
git apply $D/patch.diff || exit 9
if [ -z \"\$NOTEST\" ]; then
bash /opt/vp/test.sh $W/o.json >$W/o.log 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/o.json'))
print('stable broken:',[x for x in b['stable'] if x not in set(o['passed'])])
PY
else bash /opt/vp/build.sh >/dev/null 2>&1; fi
bash $D/demo.sh >$W/demo1 2>&1; echo demo-patched \$?; tail -2 $W/demo1
rm -rf $W/ev
for c in $*; do (cd /verif && ./check \$c 2>&1 | tail -3 | cut -c1-250); done
"
rm -rf "$W"
