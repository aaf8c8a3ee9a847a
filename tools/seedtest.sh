#!/bin/bash
# seedtest.sh ID [notest]: confirm a planted bug in a scratch copy of /repo (patch applies, stable tests pass, demo 0/nonzero)
# and run the property's check on that copy
ID=$1; D=/verif/seeded/$ID; W=/tmp/w/seed_$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p /tmp/w; rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 1
mkdir $W/.d; for f in $D/*; do case $(basename $f) in patch.diff|meta.json) ;; *) cp $f $W/.d/;; esac; done
bash .d/demo.sh > .demo0 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: PATCH FAILS"; rm -rf "$W"; exit 1; }
. /opt/vp/env.sh
if git diff --name-only | grep -q '^source'; then sed "s#ROOT = '/repo'#ROOT = '$W'#" /opt/vp/build_ext.py > .b.py; python .b.py > .b.log 2>&1 || echo "$ID: BUILD FAILS"; fi
bash .d/demo.sh > .demo1 2>&1; b=$?
echo "$ID ($P): demo clean=$a patched=$b: $(tail -1 .demo1 | cut -c1-150)"
(cd /verif && VF_REPO=$W timeout 900 python3-vt check.py $P > $W/.check.out 2>&1); echo "$ID check exit=$?"; grep -E "^VIOLATION|failing input|FAILED|unsupp" $W/.check.out | cut -c1-250 | tail -4
if [ "$2" != notest ]; then
PT="env PYTHONPATH=$W/src python -m pytest -q -p no:cacheprovider -n ${NJ:-4} -p randomly --randomly-seed=1 --randomly-dont-reorganize --continue-on-collection-errors --disable-warnings -W ignore::DeprecationWarning -W ignore::SyntaxWarning -o junit_family=xunit2"
$PT --timeout=300 --doctest-modules --junitxml=$W/.r/main.xml --ignore=src/wafo/doc --ignore=src/wafo/wavemodels.py src > .t1 2>&1
if git diff --name-only | grep -q 'wafo/stats\|wafo/misc'; then T=src/wafo/stats/tests
$PT --timeout=60 --dist worksteal --doctest-modules --junitxml=$W/.r/stats.xml --ignore=$T/test_continuous_basic.py --ignore=$T/test_discrete_basic.py --ignore=$T/test_distributions.py src/wafo/stats > .t2 2>&1; fi
sed "s#/opt/vp/reports#$W/.r#" /opt/vp/results.py > .res.py; python .res.py $W/.out.json "junit:$W/.r/*.xml" > .t3 2>&1
python - <<PY
import json,os
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$W/.out.json'))
print('$ID stable tests failing:', sorted(set(b)&set(o['failed']))[:5], 'passed', len(set(b)&set(o['passed'])))
PY
fi
cd /; rm -rf "$W"
