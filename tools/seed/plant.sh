#!/bin/bash
# plant.sh ID : takes the uncommitted edit in /repo as the bug of seeded/ID; confirms tests, demo (both ways), runs checks C.. (args 2..)
id=$1; shift
d=/verif/seeded/$id
cp /verif/tools/seed/mini.py $d/mini.py; cp /verif/tools/seed/demo.sh $d/demo.sh; chmod +x $d/demo.sh
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no edit"; exit 1; }
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /tmp/t.sh
bash $d/demo.sh; echo "demo with the bug: $?"
for c in "$@"; do VERIF_SEED=1 timeout 900 /opt/venv/bin/python /verif/check.py $c 2>&1 | grep -v KNOWN | cut -c1-220 | tail -3; done
git -C /repo checkout -q -- .
find /repo -name __pycache__ -type d -not -path '/repo/.git/*' -prune -exec rm -rf {} + 2>/dev/null
bash $d/demo.sh; echo "demo without: $?"
git -C /repo apply --check $d/patch.diff && git -C /repo status --short | head -3
