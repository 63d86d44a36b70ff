#!/bin/bash
# emit_ir.sh OUT [shim-par]: with a second argument, the build with the crate's `rayon` feature and rayon's contract in place of rayon.
# Emits the LLVM IR of /repo's current sources (crate yuv + its dependencies + the generated wrappers) into $1/release/deps/*.ll
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=nightly-2025-04-15-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$out" CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C llvm-args=-unroll-allow-partial=false -C llvm-args=-unroll-runtime=false --cap-lints=allow"
rm -f "$out"/release/deps/*.ll
cd "$here/../${2:-shim}"
cargo build --release --offline --locked
