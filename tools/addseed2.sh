#!/bin/bash
# addseed2.sh ID PROPERTY "needs" "breaks" DRIVER : like addseed.sh, the demo is drivers/DRIVER fed with the lines on stdin; expected answers come from the unpatched tree
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ]
git -C /repo checkout -- .
cat > $d/in.txt
cp /verif/drivers/$5 $d/demo.cc
sed -e 's/-fno-access-control/-fno-access-control -fpermissive/' -e 's|timeout 60 ./demo$|timeout 60 ./demo < "$d/in.txt" > out.txt; diff out.txt "$d/expected.txt"|' /verif/seeded/b04/demo.sh > $d/demo.sh
chmod +x $d/demo.sh; : > $d/expected.txt
python3 - "$@" <<'X'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
X
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $d/demo.sh | sed -n 's/^< //p' > /tmp/exp.$$) || true
mv /tmp/exp.$$ $d/expected.txt; cat $d/expected.txt
(cd /repo && bash $d/demo.sh) && echo "clean: passes"
git -C /repo apply $d/patch.diff; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tail -5 /tmp/b.log
(cd /repo && bash $d/demo.sh) && echo "PATCHED PASSES: BAD" || echo "patched: fails as wanted"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def names(x):
    for k in ("stable","passed","tests","pass"):
        if k in x: return set(x[k])
    return set()
print("missing:", sorted(names(b)-names(o))[:8])
X
}
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
