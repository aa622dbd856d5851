#!/bin/bash
# tryseed.sh ID PROP : /repo holds the uncommitted change, /verif/seeded/ID has main.rs and meta.json.
# Saves the patch, confirms that it builds, passes the stable tests, that the demo fails with it and passes
# without it, and runs the property's quick check against it. Leaves /repo clean.
id=$1; prop=$2; d=/verif/seeded/$id
[ -f "$d/main.rs" ] || { echo no main.rs; exit 2; }
for f in demo.sh mirror.py Cargo.toml Cargo.lock world.rs kit.rs; do cp /verif/tools/seedkit/$f "$d/"; done
if [ -n "$(git -C /repo diff --stat)" ]; then git -C /repo diff > "$d/patch.diff"; else git -C /repo apply "$d/patch.diff" || exit 2; fi
bash /opt/vp/build.sh >/tmp/ts.build 2>&1 || { echo BUILD-FAILED; tail -30 /tmp/ts.build; git -C /repo checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/ts.json'))
m=b-set(o['passed']); print('TESTS', 'ok' if not m else ('BROKEN', sorted(m)[:5]))
P
(cd /repo && bash "$d/demo.sh") > /tmp/ts.demo 2>&1; echo "demo with patch: rc=$? $(tail -1 /tmp/ts.demo)"
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check "$prop" --tier quick) > /tmp/ts.check 2>&1; echo "check: rc=$? $(grep -m1 VIOLATION /tmp/ts.check)"
[ -n "$3" ] && for p in ${3//,/ }; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check "$p" --tier quick) > /tmp/ts.check.$p 2>&1; echo "check $p: rc=$?"; done
git -C /repo checkout -- .
(cd /repo && bash "$d/demo.sh") > /tmp/ts.demo0 2>&1; echo "demo clean: rc=$? $(tail -1 /tmp/ts.demo0)"
