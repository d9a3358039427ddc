#!/bin/bash
# facts.sh OUTDIR : compile the MIR fact extractor, run it on /repo (debug assertions off and on)
# and on the model crate.  Everything is written below OUTDIR.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$1"; out="$(cd "$1" && pwd)"
repo="${VP_REPO:-/repo}"
sysroot="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$sysroot/lib"
if [ ! -x "$out/mirfacts" ] || [ "$here/driver/main.rs" -nt "$out/mirfacts" ]; then
  rustc +nightly --edition 2021 -A warnings "$here/driver/main.rs" -o "$out/mirfacts.tmp$$" && mv "$out/mirfacts.tmp$$" "$out/mirfacts"
fi
run() { # mode flag
  local t="$out/target_$1"
  # nothing of an earlier run may pass for up to date
  [ ! -d "$t" ] || find "$t" -depth -name 'lang[-_]pt*' -exec rm -rf {} + || true
  rm -f "$out/facts_$1.json"
  ( cd "$repo" && MIRFACTS_CRATE=lang_pt MIRFACTS_OUT="$out/facts_$1.json" RUSTC_WORKSPACE_WRAPPER="$out/mirfacts" \
    CARGO_TARGET_DIR="$t" RUSTFLAGS="-Zmir-opt-level=0 -C debug-assertions=$1 -C overflow-checks=$1 -A warnings" CARGO_INCREMENTAL=0 \
    cargo +nightly check --offline --lib -q )
  test -s "$out/facts_$1.json" || { echo "no facts came out of the build ($1)" >&2; return 1; }
}
if [ "$2" != model ]; then run off & a=$!; run on & b=$!; fi
rm -f "$out/facts_model.json"
MIRFACTS_CRATE=model MIRFACTS_OUT="$out/facts_model.json" "$out/mirfacts" --crate-name model --crate-type lib --edition 2021 \
  -Zmir-opt-level=0 -C debug-assertions=off -C overflow-checks=off -A warnings --emit metadata --out-dir "$out" "$here/model/lib.rs"
test -s "$out/facts_model.json"
if [ "$2" != model ]; then wait $a; wait $b; fi
