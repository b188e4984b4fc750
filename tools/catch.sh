#!/bin/bash
# catch.sh ID...: what the check of its property says about a planted bug (patch applied to a scratch copy of /repo)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=/tmp/catch_$id
  cp -a /repo $w
  git -C $w apply /verif/seeded/$id/patch.diff || echo "$id does not apply"
  out=$(cd /verif && VERIF_REPO=$w timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  rm -rf "/tmp/catch_$id"
  echo "$id $p exit $rc $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -m1 -i 'no answer\|unsupported' | cut -c1-150)"
done
