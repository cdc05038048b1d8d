#!/bin/bash
# Development aid: tries a planted bug in a private copy (user namespace with
# bind mounts over /repo and /verif, nothing real is touched).
# usage: seedtest.sh ID [check...]     e.g. seedtest.sh b01 C01
set -u
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/sw-$ID
mkdir -p $W
cp -a /repo $W/repo
mkdir -p $W/verif && cp -a /verif/check /verif/checks /verif/harness /verif/tools /verif/vf /verif/*.json* /verif/.build $W/verif/
cp -a $S $W/seed
cat > $W/run.sh <<'EOS'
set -u
cd /repo
git checkout -q -- . 
demo() { timeout 300 bash $W/seed/demo.sh > $W/demo.$1.log 2>&1; echo "demo $1: exit $?"; tail -3 $W/demo.$1.log; }
demo clean
git apply $W/seed/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
python3 - <<EOP
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
base=set(b.get('passed') or b.get('tests') or b['stable']); got=set(o['passed'])
print('tests: missing', sorted(base-got)[:5], len(got), 'passed')
EOP
demo patched
for c in $CHECKS; do (cd /verif; ./check $c ${TIER:-quick} > $W/$c.log 2>$W/$c.err; echo "check $c: exit $?"; grep -a -B1 VIOLATION $W/$c.log | cut -c1-300 | head -4; tail -1 $W/$c.log | cut -c1-300); done
EOS
W=$W CHECKS="$*" unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && bash $W/run.sh"
[ -n "${KEEP:-}" ] || rm -rf "/tmp/sw-$ID"
