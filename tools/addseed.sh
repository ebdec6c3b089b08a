#!/bin/sh
# addseed.sh ID PROPERTY "needs" "what it breaks": takes /repo's uncommitted diff as the patch, then restores /repo; demo.cc (if given on stdin) and a standard demo.sh are written
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ]
git -C /repo checkout -- .
cat > $d/demo.cc
LIBS=${LIBS:-"exec intfc expr value utils"}
cat > $d/demo.sh <<X
#!/bin/bash
# run in /repo after the build: 0 = behaves, nonzero = broken
R=\$PWD; B=\$R/_build/cpp; d=\$(cd "\$(dirname "\$0")" && pwd); t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
I="-I\$B"; L=""
for x in utils value expr intfc exec app-framework interfaces interfaces/UdpAdapter xml-parser third-party/pugixml/src; do I="\$I -I\$R/src/\$x"; done
for x in app-framework:PlexilAppFramework xml-parser:PlexilXmlParser exec:PlexilExec intfc:PlexilIntfc expr:PlexilExpr value:PlexilValue utils:PlexilUtils interfaces/UdpAdapter:UdpUtils; do
  L="\$L -L\$B/src/\${x%%:*} -l\${x##*:} -Wl,-rpath,\$B/src/\${x%%:*}"; done
g++ -std=gnu++14 -O1 -w -DNDEBUG -include cstdint -include cstring -fno-access-control \$I "\$d/demo.cc" -o "\$t/demo" -Wl,--no-as-needed \$L -lpthread || exit 99
cd "\$t" && timeout 60 ./demo
X
chmod +x $d/demo.sh
python3 - "$@" <<'X'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
X
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $d/demo.sh) && echo "clean: passes" || echo "CLEAN FAILS: BAD"
git -C /repo apply $d/patch.diff; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || tail -5 /tmp/b.log
(cd /repo && bash $d/demo.sh) && echo "PATCHED PASSES: BAD" || echo "patched: fails as wanted"
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1; python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def names(x):
    for k in ("stable","passed","tests","pass"):
        if k in x: return set(x[k])
    return set()
print("missing:", sorted(names(b)-names(o))[:8])
X
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
