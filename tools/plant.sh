#!/bin/bash
# plant.sh ID [--fast]: confirm a planted bug in the scratch copy /dev/shm/plant (made by plant.sh --init, removed by --done)
# builds + tests with the patch, demo on the clean and on the patched tree
P=/dev/shm/plant
case $1 in
--init) mkdir -p $P && cp -a /repo $P/repo && rm -rf /dev/shm/plant/repo/_build && cp -r /opt/vp/harness $P/harness && sed -i "s#/repo#$P/repo#g; s#/opt/vp/harness#$P/harness#g" $P/harness/*; exit;;
--done) rm -rf /dev/shm/plant; exit;;
esac
S=/verif/seeded/$1; R=$P/repo
git -C $R checkout -q -- . ; git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
rm -rf $P/d; cp -r $S $P/d; rm -f $P/d/patch.diff $P/d/meta.json
cd $R
B() { ( . $P/harness/build_common.sh; build_targets all tests ) > $P/log 2>&1 || { echo "BUILD FAILED"; grep -m5 -E "error" $P/log; return 1; }; }
[ -n "$SKIPCLEAN" ] || { B; t=$(date +%s); for k in 1 2; do timeout 300 bash $P/d/demo.sh > $P/dlog 2>&1; echo "clean demo: $? ($(( $(date +%s)-t ))s)"; tail -3 $P/dlog; done; }
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
B || exit 1
t=$(date +%s); timeout 300 bash $P/d/demo.sh > $P/dlog 2>&1; echo "patched demo: $? ($(( $(date +%s)-t ))s)"; tail -3 $P/dlog
if [ "$2" != --fast ]; then
bins=(); for f in $R/test/test_*.cpp; do bins+=("$R/_build/test/$(basename "$f" .cpp)"); done
mkdir -p $R/_build/results; cd $R/_build/results; rm -f cases.txt
python3 $P/harness/run_cases.py $R/_build/results/cases.txt "${bins[@]}" > $P/tlog 2>&1
python3 /opt/vp/results.py $P/o.json "lines:$R/_build/results/cases.txt" > /dev/null
python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json'))['passed'])
o=json.load(open('$P/o.json')); p=set(o['passed'])
print("tests: %d of %d stable pass; missing: %s" % (len(b&p), len(b), sorted(b-p)[:5]))
PY
fi
cd $R; git checkout -q -- .
