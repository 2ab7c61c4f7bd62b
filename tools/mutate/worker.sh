#!/bin/bash
# worker.sh W CPUS MUTANTS LIST OUT : tries the mutant numbers in LIST on scratch copies /tmp/mw$W
# result line: N killed|survived|nobuild|error seconds props
set -u
W=$1 CPUS=$2 M=$3 LIST=$4 OUT=$5 SCALE=${SCALE:-40}
D=/tmp/mw$W
mkdir -p $D
if [ ! -d $D/repo ]; then git clone -q /repo $D/repo; fi
rm -rf $D/vf/harness/src; mkdir -p $D/vf
cp -r /verif/tools /verif/run.sh /verif/known-findings.txt $D/vf/
mkdir -p $D/vf/harness; cp -r /verif/harness/src /verif/harness/Cargo.* $D/vf/harness/
sed -i "s#path = \"/repo\"#path = \"$D/repo\"#" $D/vf/harness/Cargo.toml
sed -i "s#/repo/src#$D/repo/src#g" $D/vf/harness/src/world.rs
cd $D/vf/harness; . ../tools/env.sh
for n in $(cat $LIST); do
    t0=$(date +%s)
    git -C $D/repo checkout -q -- .
    python3 /verif/tools/mutate/mutants.py apply $D/repo $M $n
    if ! taskset -c $CPUS cargo build --release --offline --bin dlpcheck >$D/log 2>&1; then
        echo "$n nobuild $(( $(date +%s) - t0 ))" >>$OUT; continue
    fi
    VERIF_SEED=1 timeout 600 taskset -c $CPUS ./target/release/dlpcheck --property ANY --tier quick --scale $SCALE >$D/out 2>&1; rc=$?
    case $rc in
    0) r=survived ;; 1) r=killed ;; *) r="error($rc)" ;; esac
    echo "$n $r $(( $(date +%s) - t0 )) $(grep -o '\[C[0-9 C]*\]' $D/out | head -1)" >>$OUT
done
git -C $D/repo checkout -q -- .
