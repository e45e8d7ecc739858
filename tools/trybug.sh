#!/bin/bash
# trybug.sh DIR [PROPERTY...]: tries the planted bug in DIR (patch.diff, demo.sh) on a scratch copy of /repo:
# builds, runs the tests and the demonstration with and without it, and then the properties' checks.
D=$(cd "$1" && pwd); shift
ID=$(basename "$D")
W=/tmp/tb-$ID
mkdir -p $W; cp -a /repo $W/repo
cp -a /verif/build $W/build
cat > $W/go.sh <<X
mount --bind $W/repo /repo || exit 9
cd /repo
if [ -z "$SKIPCLEAN" ]; then
  bash $D/demo.sh >$W/demo0 2>&1; echo "demo on the unchanged tree: \$? (want 0)"
fi
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/build-cpp.sh >$W/build.log 2>&1 || { echo "does not build"; tail -5 $W/build.log; exit 1; }
bash $D/demo.sh >$W/demo1 2>&1; echo "demo with the bug: \$? (want not 0)"; tail -4 $W/demo1
if [ -z "$SKIPTESTS" ]; then
bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('$W/t.json'))
print('tests broken:', sorted(b-set(t['passed'])))"
fi
cd /verif
for p in $*; do VERIF_BUILD=$W/build python3 run.py \$p ${TIER:-quick} $CHECKARGS 2>&1 | grep -E "VIOLATION|FAILED|cases,|rror" | cut -c1-300; done
X
unshare -Urm bash $W/go.sh
case "$W" in /tmp/tb-?*) find "$W" -delete;; esac
