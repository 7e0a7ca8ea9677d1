#!/bin/bash
# dev helper: seedtest.sh ID [--notest] : is the planted change accepted (builds, tests pass, demo), and is it caught?
id=$1
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
[ -n "$(git status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply --check $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 2; }
demo() { t=$(mktemp -d); cp -r $d/. $t; rm -f $t/*.diff $t/meta.json; (cd /repo; timeout 300 bash $t/demo.sh >/tmp/demo.$id.log 2>&1); r=$?; rm -rf "$t"; return $r; }
if [ "$2" != "--notest" ]; then
  demo; a=$?
  git apply $d/patch.diff
  bash /opt/vp/build.sh > /tmp/seedbuild.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -30 /tmp/seedbuild.log; exit 2; }
  bash /opt/vp/test.sh /tmp/seedtest.json > /dev/null 2>&1
  python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seedtest.json'))
miss=b-set(t['passed']); print("tests:", "ok" if not miss else f"BROKEN {sorted(miss)}")
P
  demo; b=$?
  echo "$id: demo unchanged=$a patched=$b"
else
  git apply $d/patch.diff
fi
cd /verif && ./check.py $prop > /tmp/seedcheck.$id.log 2>&1; c=$?
echo "$id ($prop): check exit $c: $(grep -E '^(VIOLATION|failed|failing)' /tmp/seedcheck.$id.log | cut -c1-300 | head -4)"
