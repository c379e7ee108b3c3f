#!/bin/bash
# development tool.  bug.sh new ID: scratch copy /tmp/bugs/ID;  bug.sh test ID: verify the planted bug
# (diff, tests, demo on both trees);  bug.sh check ID [PROPERTY]: run the check against the scratch copy
set -u
cmd=$1; id=$2; w=/tmp/bugs/$id; s=/verif/seeded/$id
case $cmd in
new) rm -rf "$w"; mkdir -p "$s"; cp -a /repo "$w"; echo "$w";;
load) rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply "$s/patch.diff" && echo "$w";;
test)
  git -C "$w" diff > "$s/patch.diff"; cat "$s/patch.diff" | head -60
  (cd "$w" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -x 2>&1 | tail -2)
  (cd /repo && bash "$s/demo.sh" >/dev/null 2>&1; echo "demo on clean: $?")
  (cd "$w" && bash "$s/demo.sh" 2>&1 | tail -3; echo "demo on bug: ${PIPESTATUS[0]}");;
check)
  p=${3:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
  VERIF_REPO=$w /opt/venv/bin/python /verif/check.py $p --tier quick 2>&1 | cut -c1-600 | tail -8;;
drop) rm -rf "$w";;
esac
