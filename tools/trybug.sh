#!/bin/bash
# trybug.sh ID [--notest] [--nocheck] : try seeded/ID in a private copy of /repo (bind-mounted in a namespace of its own)
ID=$1; shift; OPT="$*"
HERE=$(cd "$(dirname "$0")/.." && pwd)
B=$HERE/seeded/$ID
W=$(mktemp -d /tmp/tb-$ID-XXXX)
cp -a /repo $W/repo; cp -a $B $W/demo; 
cat > $W/go.sh <<X
mount --bind $W/repo /repo || exit 9
cd /repo
git checkout -q -- . 
git apply $B/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 8; }
bash /opt/vp/build.sh > $W/build.log 2>&1 || { tail -20 $W/build.log; echo BUILD FAILED; exit 7; }
( cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo.bad 2>&1 ); echo "demo with patch: rc=\$? (want nonzero)"; tail -3 $W/demo.bad
case "$OPT" in *--notest*) ;; *)
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$W/t.json'))['passed'])
print('stable tests failing with patch:', sorted(s-p)[:5], len(s-p))
P
;; esac
case "$OPT" in *--nocheck*) ;; *)
PROP=\${PROP:-\$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
for p in \$PROP; do ( cd $HERE; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py \$p --tier quick > $W/check.log 2>&1; echo "check \$p rc=\$?"; grep -A3 VIOLATION $W/check.log | cut -c1-400 ); done
;; esac
git checkout -q -- .
bash /opt/vp/build.sh > $W/build2.log 2>&1
( cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo.good 2>&1 ); echo "demo without patch: rc=\$? (want 0)"; tail -2 $W/demo.good
X
unshare -m bash $W/go.sh
rm -rf "$W"
