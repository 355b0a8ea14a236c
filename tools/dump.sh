#!/bin/bash
# Builds (if needed) the MIR dumper and runs it over a scratch copy of /repo's working tree.
#   dump.sh OUTDIR [REPO]
# writes OUTDIR/jst.lib.json and OUTDIR/jsonschema_transpiler.bin.json
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1; REPO=${2:-${VERIF_REPO:-/repo}}
B=$V/.build
mkdir -p "$B" "$OUT"; OUT=$(cd "$OUT" && pwd)
exec 9>"$B/lock"; flock 9
command -v cargo >/dev/null || export PATH="$HOME/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= FORMAT_TESTS=false FORMAT_TESTS_BACKUP=false
export LIBCLANG_PATH=/usr/lib/llvm-14/lib CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WORKSPACE_WRAPPER CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN CARGO_TARGET_DIR RUST_LOG
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}
if [ ! -x "$B/driver/release/mirdump" ] || [ -n "$(find "$V/driver/src" "$V/driver/Cargo.toml" -newer "$B/driver/release/mirdump" 2>/dev/null)" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --release --offline) >"$B/driver.log" 2>&1 || { echo "dump.sh: building the MIR dumper failed" >&2; tail -20 "$B/driver.log" >&2; exit 3; }
  touch "$B/driver/release/mirdump"
fi
rm -rf "$B/tree"; mkdir -p "$B/tree"
(cd "$REPO" && tar -c --exclude=./target --exclude=./.git .) | tar -x -m -C "$B/tree" || exit 3
# cargo's freshness check would skip the wrapper on a warm target directory
rm -rf "$B"/deps/debug/.fingerprint/jsonschema-transpiler-* "$OUT"/*.json
FEATS=${MIRDUMP_FEATURES:-}
(cd "$B/tree" && MIRDUMP_OUT="$OUT" MIRDUMP_CRATES=jst,jsonschema_transpiler RUSTC_WORKSPACE_WRAPPER="$B/driver/release/mirdump" \
   CARGO_TARGET_DIR="$B/deps" cargo +nightly check --offline --lib --bins ${FEATS:+--features "$FEATS"}) >"$B/check.log" 2>&1
rc=$?
if [ $rc != 0 ] || [ ! -s "$OUT/jst.lib.json" ] || [ ! -s "$OUT/jsonschema_transpiler.bin.json" ]; then
  echo "dump.sh: analysing the crate failed (rc=$rc)" >&2; tail -30 "$B/check.log" >&2; exit 4
fi
exit 0
