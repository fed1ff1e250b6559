#!/bin/bash
# seedtest.sh ID...: in a copy of /repo, one after another: demo on the clean tree, then with the patch: build, 13 tests, demo, quick check
R=/tmp/seedcopy.$$
mkdir -p $R
cp -a /repo/. $R/
rm -rf $R/_build
for f in build.sh test.sh; do sed "s#/repo#$R#g; s#/opt/vp/build.sh#$R.build.sh#g" /opt/vp/$f >$R.$f; done
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    cp -r $d $R.demo; rm -f $R.demo/patch.diff $R.demo/meta.json
    (cd $R && timeout 300 bash $R.demo/demo.sh >/tmp/seed.$id.clean 2>&1); c=$?
    git -C $R apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
    bash $R.build.sh >/tmp/seed.$id.build 2>&1; b=$?
    bash $R.test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1
    t=$(python3 -c "
import json
d=json.load(open('/tmp/seed.$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(d['passed']))")
    (cd $R && timeout 300 bash $R.demo/demo.sh >/tmp/seed.$id.bad 2>&1); x=$?
    r=-; s=$(date +%s)
    if [ -z "$NOCHECK" ]; then (cd /verif && VERIF_REPO=$R timeout 900 python3 bin/check.py $p quick >/tmp/seed.$id.check 2>&1); r=$?; fi
    e=$(date +%s)
    git -C $R checkout -- .
    rm -rf $R.demo
    echo "$id [$p]: demo clean=$c patched=$x build=$b tests=$t/13 check=$r ($((e-s)) s) $(grep -c '^VIOLATION property='$p /tmp/seed.$id.check 2>/dev/null)"
done
rm -rf $R $R.build.sh $R.test.sh
