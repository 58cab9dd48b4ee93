#!/bin/bash
# checkseeds.sh LANE id...: builds, tests and runs the demonstration of each planted change in a scratch copy
# of /repo under /tmp, with and without the change. Scratch use only; no check runs this.
L=/tmp/seedlane$1; shift
mkdir -p $L; [ -d $L/repo ] || cp -a /repo $L/repo
git -C $L/repo checkout -q -- . ; git -C $L/repo fetch -q /repo HEAD; git -C $L/repo reset -q --hard FETCH_HEAD
export RUSTUP_TOOLCHAIN=1.75.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
for id in "$@"; do
  D=$L/seed-$id; mkdir -p $D; cp /verif/seeded/$id/*.rs /verif/seeded/$id/Cargo.lock /verif/seeded/$id/demo.sh $D/
  # shared target makes the repeated builds quick
  sed -i "s#/tmp/phx-demo-$id/target#$L/target#; s#export CARGO_TARGET_DIR=.*#export CARGO_TARGET_DIR=$L/target#; s#\"\$D/target/debug/phx\"#$L/target/debug/phx#" $D/demo.sh
  cd $L/repo
  touch src/lib.rs
  bash $D/demo.sh > $D/clean.log 2>&1; c=$?
  git apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  touch src/lib.rs
  t=$(cargo test --offline --locked --lib 2>&1 | grep -c "^test .* ok$")
  bash $D/demo.sh > $D/patched.log 2>&1; p=$?
  git checkout -q -- .
  echo "$id clean=$c patched=$p tests=$t | $(tail -1 $D/clean.log) | $(tail -1 $D/patched.log)"
done
