# Shell helpers used while building (source this file). Copies: git clone /repo /tmp/repo3.
# cm "fix: ..."  build, test, commit in /repo
cm() { bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/b.log; return 1; }; bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; if grep -q '"failed": \[\]' /tmp/t.json; then git -C /repo commit -qam "$1" && git -C /repo log --oneline | head -1; else cat /tmp/t.json; return 1; fi; }
# mk DIR PROP NEEDS WHAT : skeleton of a planted bug; mkc ... < demo.cpp : the same with the shim and the tiny-field headers
mk() {
    mkdir -p "$1"
    cat > "$1/demo.sh" <<'D'
#!/bin/bash
# exit 0 when the demonstrated behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
clang++-18 -std=c++17 -O1 -w -I"$here" -I"$here/shim" -Iinclude "$here/demo.cpp" -o "$out/demo" || exit 3
timeout 120 "$out/demo"
rc=$?
rm -r "$out"
exit $rc
D
    python3 -c 'import json,sys; json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)' "$@"
}
mkc() { mk "$@"; cp -r /verif/shim/include "$1/shim"; cp /verif/lib/{mc,tiny,tinycurve}.hpp "$1/"; cat > "$1/demo.cpp"; }
# tryseed ID : the change is in the working tree of ${SR:-/tmp/repo3}
tryseed() {
    id=$1; d=/verif/seeded/$id; R=${SR:-/tmp/repo3}
    git -C $R diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "$id: no change"; return; }
    (cd $R && bash $d/demo.sh >/tmp/demo.log 2>&1); rc=$?
    git -C $R checkout -q -- .
    (cd $R && bash $d/demo.sh >/tmp/demo2.log 2>&1); rc2=$?
    echo "$id: demo with bug $rc, without $rc2"; [ $rc2 = 0 ] || tail -c 600 /tmp/demo2.log; [ $rc = 3 ] && tail -c 600 /tmp/demo.log
    git -C $R apply $d/patch.diff
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd /verif; VERIF_BUILD=/tmp/seedbuild VERIF_REPO=$R timeout 1500 python3 run.py $prop quick | cut -c1-300 | head -4); git -C $R checkout -q -- .
}
# verifyseeds [ids] : build + stable tests + demo with every planted bug (in /repo; nothing else may touch it)
verifyseeds() { for id in ${@:-$(ls /verif/seeded)}; do
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
    b=ok; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || b=BUILDFAIL
    bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; grep -q '"failed": \[\]' /tmp/t.json || b="$b TESTFAIL"
    (cd /repo; bash /verif/seeded/$id/demo.sh >/tmp/d.log 2>&1) && b="$b DEMOPASS"
    git -C /repo checkout -q -- .
    (cd /repo; bash /verif/seeded/$id/demo.sh >/tmp/d.log 2>&1) || b="$b DEMOFAIL"
    echo "$id $b"; done; }
