#!/bin/bash
# t.sh DIR: run the sandbox's unit tests on the tree in DIR (scratch slice), report failures against the baseline
. /opt/vp/partial/common.sh
S=/tmp/tslice; mkdir -p $S
"$P/slicer/target/release/slicer" "$1" "$P/omit.txt" "$S/crate" || exit 2
cp "$P/crate/Cargo.lock" "$S/crate/Cargo.lock"
if [ ! -d $S/target ]; then mkdir -p $S/target/debug; for d in deps build .fingerprint; do cp -a "$P/crate/target/debug/$d" "$S/target/debug/$d"; done; fi
export RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR="$S/target"
cd $S/crate && cargo test --lib --no-fail-fast --offline -- --test-threads 1 > $S/log 2>&1
grep -E "^error|FAILED|failed|test result" $S/log | head
