#!/bin/bash
# plantns.sh ID EDIT.py C.. : like plant.sh, in a mount namespace of its own (the edit is made in a copy that is mounted over /repo)
id=$1; ed=$2; shift 2
d=/verif/seeded/$id; w=/tmp/pl_$id
cp /verif/tools/seed/mini.py $d/mini.py; cp /verif/tools/seed/demo.sh $d/demo.sh; chmod +x $d/demo.sh
rm -rf "$w"; mkdir -p $w/verif; cp -a /repo $w/repo; cp -a /verif/check.py /verif/rv /verif/known_findings.txt $w/verif/
(cd $w/repo && python3 $ed) || exit 1
git -C $w/repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no edit"; exit 1; }
python3 - $d/patch.diff <<'P'
import re,subprocess,sys
base="$(git rev-list --max-parents=0 HEAD)"
f=None
for l in open(sys.argv[1]):
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)",l)
    if m: n=int(m.group(1)); continue
    if f and l.startswith("-") and not l.startswith("---"):
        h=subprocess.run(["git","-C","/repo","blame","-l","-L%d,%d"%(n,n),"HEAD","--",f],capture_output=True,text=True).stdout
        if not h.startswith("^"): print("NOT ORIGINAL:",f,n,l.strip()[:80])
        n+=1
    elif f and l.startswith(" "): n+=1
P
cat > $w/in.sh <<E2
mount --bind $w/repo /repo && mount --bind $w/verif /verif || exit 9
cd /repo; cp -a $w/seed /tmp/seed_$id
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh $w/o.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print('tests missing',sorted(b-set(json.load(open('$w/o.json'))['passed']))[:5])"
bash /tmp/seed_$id/demo.sh; echo "demo with the bug: \$?"
for c in $@; do VERIF_SEED=1 timeout 900 /opt/venv/bin/python /verif/check.py \$c 2>&1 | grep -v KNOWN | cut -c1-260 | tail -3; done
E2
cp -a $d $w/seed
unshare -Urm bash $w/in.sh
cd /repo && bash /tmp/seed_$id/demo.sh; echo "demo without: $?"
git -C /repo apply --check $d/patch.diff || echo "does not apply"
rm -rf /tmp/seed_$id "$w"
git -C /repo status --short | head -3
