#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted bug in a scratch copy: demo passes
# without it, fails with it, stable tests pass with it; then run its check.
ID=$1; D=/verif/seeded/$ID; W=/tmp/seed/$ID
rm -rf "/tmp/seed/$ID"; mkdir -p /tmp/seed; cp -a /repo "$W"; cd "$W" || exit 1
git checkout -q -- . 
mkdir -p "/tmp/seed/$ID.demo"; cp "$D"/* "/tmp/seed/$ID.demo/"; rm -f "/tmp/seed/$ID.demo/patch.diff" "/tmp/seed/$ID.demo/meta.json"
export OMP_NUM_THREADS=4
PYTHONPATH="$W" timeout 300 bash "/tmp/seed/$ID.demo/demo.sh" >"/tmp/seed/$ID.demo0" 2>&1; r0=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
PYTHONPATH="$W" timeout 300 bash "/tmp/seed/$ID.demo/demo.sh" >"/tmp/seed/$ID.demo1" 2>&1; r1=$?
echo "$ID: demo clean=$r0 patched=$r1"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" != notests ]; then
cat > "/tmp/seed/$ID.run.sh" <<X
ip link set lo up
export PATH=/opt/venv/bin:\$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 HF_HUB_OFFLINE=1 MPLBACKEND=Agg PYTHONPATH=$W
cd $W
L=tests/test_runners/test_quantization_loop.py::TestLSQEpochBasedLoop
timeout 120 python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed/$ID.lsq.xml \$L
timeout 1500 python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed/$ID.main.xml --deselect \$L tests
X
unshare -Urn bash "/tmp/seed/$ID.run.sh" >"/tmp/seed/$ID.tests" 2>&1
/usr/bin/python3 /opt/vp/results.py "/tmp/seed/$ID.json" "junit:/tmp/seed/$ID.*.xml" >/dev/null
python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/$ID.json'))
print('$ID: stable failing:', sorted(set(b['stable'])-set(o['passed'])))
X
fi
cd /verif; VERIF_DEV_REPO=$W VERIF_SEED=1 ./check.sh $P > "/tmp/seed/$ID.check" 2>&1; echo "$ID: check $P exit $? $(grep -c ^VIOLATION /tmp/seed/$ID.check) violations"
rm -rf "/tmp/seed/$ID"
