#!/bin/bash
# extract.sh OUT.json : type-check /repo's current working tree and write its MIR facts to OUT.json
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$(realpath -m "$1")
REPO=${REPO:-/repo}
B=${VERIF_BUILD:-$HERE/../build}
mkdir -p "$B"
B=$(cd "$B" && pwd)
export CARGO_NET_OFFLINE=true
SYS=$(rustc +nightly --print sysroot)
( cd "$HERE/factdump" && CARGO_TARGET_DIR="$B/factdump" cargo +nightly build --release --offline -q ) >"$B/factdump.log" 2>&1 || { cat "$B/factdump.log" >&2; exit 2; }
FD="$B/factdump/release/factdump"
run() { # dir
  ( cd "$1" && rm -f "$OUT" && touch lib_stamp && \
    LD_LIBRARY_PATH="$SYS/lib" FACTDUMP_OUT="$OUT" FACTDUMP_CRATE=tonbo RUSTC_WORKSPACE_WRAPPER="$FD" \
    CARGO_TARGET_DIR="$B/target" RUSTFLAGS="--cap-lints warn" \
    cargo +nightly check --offline --lib ) >"$B/check.log" 2>&1
  [ -s "$OUT" ]
}
W="$B/whole"; rm -rf "$W"; mkdir -p "$W"
sed -e "s#^aisle = .*#aisle = { path = \"$HERE/aisle-stub\" }#" -e '/^\[\[test\]\]/,$d' "$REPO/Cargo.toml" > "$W/Cargo.toml"
cp "$HERE/Cargo.lock.tonbo" "$W/Cargo.lock"
cp -a "$REPO/src" "$W/src"
find "$W/src" -name '*.rs' -exec touch {} +
if run "$W"; then echo whole; exit 0; fi
cp "$B/check.log" "$B/check.whole.log"
# The parts left out of the sandbox's build may not type-check: fall back to what the build covers.
S="$B/slice"; rm -rf "$S"; mkdir -p "$S"
if [ -d /opt/vp/partial/slicer ]; then
  ( export RUSTUP_TOOLCHAIN=1.90; CARGO_TARGET_DIR="$B/slicer" cargo build --quiet --release --offline --manifest-path /opt/vp/partial/slicer/Cargo.toml ) >"$B/slicer.log" 2>&1
  SL="$B/slicer/release/slicer"; [ -x "$SL" ] || SL=/opt/vp/partial/slicer/target/release/slicer
  "$SL" "$REPO" /opt/vp/partial/omit.txt "$S" >>"$B/slicer.log" 2>&1 && cp -n "$HERE/Cargo.lock.tonbo" "$S/Cargo.lock"
  if run "$S"; then echo slice; exit 0; fi
fi
cat "$B/check.log" >&2
exit 2
