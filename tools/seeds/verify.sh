#!/bin/bash
# verify.sh ids...: confirms in /repo (undone afterwards) that each seeded bug builds, passes the tests, and that its demo tells it apart.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
    d=/verif/seeded/$id
    t=$(mktemp -d); cp "$d"/demo* "$t"/
    bash "$t/demo.sh" >"$t/ok" 2>&1; a=$?
    git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/build.sh >"$t/build" 2>&1; b=$?
    bash /opt/vp/test.sh "$t/test.json" >/dev/null 2>&1
    n=$(python3 -c "import json;d=json.load(open('$t/test.json'));print(len(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])&set(d['passed'])))")
    s=$(date +%s); bash "$t/demo.sh" >"$t/bad" 2>&1; c=$?
    git checkout -q -- .
    bash /opt/vp/build.sh >/dev/null 2>&1
    echo "$id: clean=$a build=$b tests=$n patched=$c ($(( $(date +%s) - s )) s) | $(tail -1 "$t/ok") | $(tail -1 "$t/bad")"
    rm -rf "$t"
done
git -C /repo status --porcelain
