#!/bin/bash
# Tries planted bugs in a scratch copy (never in /repo): stable tests, demo on the clean
# and the patched tree, then checks.  usage: try_bugs.sh [-d] [-p "C01 C02"] id...
#   -d  skip tests and demos     -p  properties to check (default: the bug's own)
demo=1 props=
while getopts dp: o; do case $o in d) demo=0;; p) props=$OPTARG;; *) exit 2;; esac; done
shift $((OPTIND-1))
W=/tmp/vp_try_bugs; mkdir -p $W
[ -d $W/repo ] || cp -r /repo $W/repo
git -C $W/repo fetch -q /repo HEAD && git -C $W/repo checkout -q -f FETCH_HEAD
rm -rf /tmp/vp_try_bugs/sim; cp -r /verif/sim $W/sim
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" $W/sim/harness/Cargo.toml
for id in "$@"; do
  d=/verif/seeded/$id; r="$id:"
  git -C $W/repo checkout -q -f FETCH_HEAD
  if [ $demo = 1 ]; then
    (cd $W/repo && timeout 300 bash $d/demo.sh) >$W/demo.log 2>&1; r="$r demo-clean=$?"
  fi
  git -C $W/repo apply $d/patch.diff || { echo "$r does not apply"; continue; }
  if [ $demo = 1 ]; then
    (cd $W/repo && cargo test --workspace --no-fail-fast --offline -- --test-threads 8) >$W/test.log 2>&1
    r="$r tests=$(grep -h '^test result' $W/test.log | awk '{p+=$4;f+=$6} END{print p"/"f}')"
    (cd $W/repo && timeout 300 bash $d/demo.sh) >$W/demo.log 2>&1; r="$r demo-bug=$?"
  fi
  (cd $W/sim && export RUSTC_WRAPPER=/verif/bin/rustc-wrapper.sh CARGO_TARGET_DIR=$W/target && cargo build --release --offline && cargo build --profile plain --offline) >$W/build.log 2>&1 || { echo "$r build failed"; continue; }
  p=${props:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  for c in $p; do
    mkdir -p $W/out/evidence
    VERIF_DIR=$W/out VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick $W/target/release/harness check $c >$W/check.$id.$c.log 2>&1
    r="$r $c=$?($(python3 -c "import json;e=json.load(open('$W/out/evidence/$c.json'));print(e['coverage']['evaluations'],e['wall_s'])"))"
  done
  echo "$r"
done
git -C $W/repo checkout -q -f FETCH_HEAD
