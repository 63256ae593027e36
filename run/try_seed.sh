#!/bin/bash
# try_seed.sh ID : apply a planted bug to /repo, run its property's check, undo.
v=$(cd "$(dirname "$0")/.." && pwd); d=$v/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
(cd $v && python3 run/check.py $p quick); rc=$?
git -C /repo checkout -q -- .
echo "== $1 $p exit $rc"
