#!/bin/bash
# tryseed.sh <seed id> [check...]: demo on clean tree, then patch, build, tests, demo, property check; always reverts
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
if [ -z "$SKIPCLEAN" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
(cd /repo && bash $d/demo.sh) >/tmp/demo.clean 2>&1; echo "demo clean: $?"; tail -3 /tmp/demo.clean
fi
git -C /repo apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; grep -m5 error /tmp/b.log; exit 1; }
[ -z "$SKIPTEST" ] && bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1
(cd /repo && bash $d/demo.sh) >/tmp/demo.bad 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.bad
for c in $prop "$@"; do (cd /verif && ./check.sh $c) > /tmp/chk 2>&1; echo "check $c: $?"; tail -6 /tmp/chk; done
