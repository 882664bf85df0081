#!/bin/bash
# plant.sh ID PROPERTY NEEDS WHAT DEMO.rs [serde]
# Confirms the change made in the scratch copy /tmp/wt and keeps it as seeded/ID; runs PROPERTY's check on it.
id=$1; prop=$2; needs=$3; what=$4; demo=$5; serde=$6
d=/verif/seeded/$id
mkdir -p "$d"
git -C /tmp/wt diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; rm -rf "$d"; exit 1; }
cp "$demo" "$d/main.rs"
f=""; [ -n "$serde" ] && f=', features = ["serde"]'
sed "s/FEATURES/${f//\"/\\\"}/" /verif/tools/demo_template.sh > "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
(cd /repo && bash "$d/demo.sh" > /tmp/demo_ok.log 2>&1) && echo "demo on unchanged tree: ok" || { echo "DEMO FAILS ON UNCHANGED TREE"; tail -5 /tmp/demo_ok.log; }
(cd /tmp/wt && bash "$d/demo.sh" > /tmp/demo_bad.log 2>&1); rc=$?; echo "demo on changed tree: rc=$rc"; tail -2 /tmp/demo_bad.log; [ $rc = 3 ] && echo "DEMO DOES NOT BUILD"
(cd /tmp/wt && CARGO_TARGET_DIR=/tmp/wt/target cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 \
    --skip src/bloom/bloom_filter.rs --skip src/cuckoo/cuckoo_filter.rs --skip src/count_min_sketch.rs \
    --skip cuckoo::scalable_cuckoo_filter::tests:: > /tmp/wt-test.log 2>&1); echo "tests rc=$?"; grep -E "^test .*FAILED|error" /tmp/wt-test.log | head
git -C /repo apply "$d/patch.diff" || exit 1
(cd /verif && VERIF_SEED=1 python3 check.py "$prop" 2>&1 | tail -6)
git -C /repo checkout -- .
git -C /tmp/wt checkout -- .
