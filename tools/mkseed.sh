#!/bin/bash
# dev helper: mkseed.sh ID PROP NEEDS BREAKS DEMO.cc -- turns the uncommitted change in /repo into seeded/ID after confirming it, then undoes it
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp "$5" $d/demo.cc
cat > $d/demo.sh <<'X'
#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
lib=$(find _build -name 'libswoc*.a' | head -1)
clang++-18 -std=c++17 -fno-access-control -Icode/include "$d/demo.cc" "$lib" -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
X
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
cd /repo
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1 || tail -5 /tmp/seed.log
bash /opt/vp/build.sh > /tmp/seed.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/seed.log; }
python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'));print('failed tests:',o['failed'])"
(bash $d/demo.sh) > /tmp/demo.log 2>&1; echo "demo with patch: $? (want nonzero, not 3)"; tail -2 /tmp/demo.log
cd /verif; python3 check.py $2 | grep -E "VIOLATION|^  [a-z]|ERROR|obligations" | cut -c1-200 | head -8
git -C /repo checkout -- . ; cd /repo; bash /opt/vp/build.sh > /dev/null 2>&1
(bash $d/demo.sh) > /tmp/demo.log 2>&1; echo "demo without: $? (want 0)"; tail -2 /tmp/demo.log
