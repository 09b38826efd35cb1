#!/bin/bash
# Build the driver if needed and dump the MIR of /repo (through the probe crate) to $1.
# Probes that no longer type-check against /repo (an internal signature changed) are dropped, one by one.
set -e
V=$(cd "$(dirname "$0")" && pwd)
OUT=$(realpath -m "${1:-$V/.work/mir.json}")
W=$V/.work; mkdir -p "$W" "$(dirname "$OUT")"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTUP_TOOLCHAIN
SYS=$(rustc +nightly --print sysroot)
if [ ! -x "$W/driver-target/release/mirdump" ] || [ -n "$(find "$V/driver/src" "$V/driver/Cargo.toml" -newer "$W/driver-target/release/mirdump")" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR="$W/driver-target" cargo +nightly build --release --offline --locked) >"$W/driver-build.log" 2>&1 || { cat "$W/driver-build.log" >&2; exit 3; }
fi
T=$W/probe-target
rm -rf "$W/harness"; cp -r "$V/harness" "$W/harness"
rm -f "$OUT" "$W/dropped.txt"; : >"$W/dropped.txt"
cd "$W/harness"
for try in 1 2 3 4 5 6 7 8; do
  # cargo trusts mtimes: forget the fingerprints of the probe and of the crate under analysis
  rm -rf "$T"/debug/.fingerprint/probe-* "$T"/debug/.fingerprint/material-color-utilities-rs-*
  if MIRDUMP_OUT="$OUT" MIRDUMP_REPO=material_color_utilities_rs MIRDUMP_CRATE=probe MIRDUMP_STOP="$V/stop.txt" \
    LD_LIBRARY_PATH="$SYS/lib" RUSTC_WORKSPACE_WRAPPER="$W/driver-target/release/mirdump" \
    RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Awarnings" CARGO_TARGET_DIR="$T" CARGO_INCREMENTAL=0 \
    cargo +nightly check --offline --locked >"$W/dump.log" 2>&1; then break; fi
  L=$(grep -A1 '^error' "$W/dump.log" | grep -oE -- '--> src/lib.rs:[0-9]+' | grep -oE '[0-9]+$' | sort -un)
  [ -n "$L" ] || { cat "$W/dump.log" >&2; exit 3; }
  for n in $L; do sed -n "${n}p" src/lib.rs >>"$W/dropped.txt"; sed -i "${n}s,.*,// dropped," src/lib.rs; done
done
[ -s "$OUT" ] || { echo "mirdump produced no output" >&2; cat "$W/dump.log" >&2; exit 3; }
