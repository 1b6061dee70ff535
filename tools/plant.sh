#!/bin/bash
# plant.sh ID [check...]: confirm a planted bug (builds, passes the stable tests, the demonstration tells it apart) and run the checks against it.
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 3
[ -z "$(git status --short)" ] || { echo "/repo is not clean"; exit 3; }
bash /opt/vp/build.sh >/dev/null 2>&1
T=$(mktemp -d); cp -r "$D"/. "$T"; rm -f "$T"/*.diff "$T"/meta.json
timeout 300 bash "$T/demo.sh" >"$T/clean.log" 2>&1; echo "demo on the unchanged tree: $?"
git apply "$D/patch.diff" || exit 3
if bash /opt/vp/build.sh >"$T/build.log" 2>&1; then
    timeout 300 bash "$T/demo.sh" >"$T/bug.log" 2>&1; echo "demo with the change: $?"; tail -3 "$T/bug.log"
    for c in "$@"; do
        if [ "$c" = tests ]; then
            bash /opt/vp/test.sh $T/t.json >$T/t.log 2>&1
            python3 - $T/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
k=[x for x in b if isinstance(b[x],list)]
want=set(b.get('stable') or b.get('passed') or b[k[0]])
print('tests missing:', sorted(want-set(t['passed']))[:20])
P
        else
            (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $c 2>&1 | grep -a "VIOLATION\|evaluations\|rror" | cut -c1-250 | head -${LINES_MAX:-4}; echo "$c -> ${PIPESTATUS[0]}")
        fi
    done
else
    echo "does not build"; grep error "$T/build.log" | head -5
fi
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
rm -r "$T"
