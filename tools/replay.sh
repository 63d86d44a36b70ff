#!/bin/bash
# replay.sh FILE: runs a recorded violation against the library built from /repo's current sources; exit 1 when it still fails.
root="$(cd "$(dirname "$0")/.." && pwd)"
work="$(mktemp -d "${TMPDIR:-/tmp}/vf.XXXXXX")" || exit 2
trap 'rm -rf -- "$work"' EXIT
( cd "$root/engine" && cargo build --release --offline --locked ) >"$work/engine.log" 2>&1 || { tail -20 "$work/engine.log"; exit 2; }
"$root/tools/emit_ir.sh" "$work/ir" >"$work/ir.log" 2>&1 || { tail -20 "$work/ir.log"; exit 2; }
lib="$work/ir/release/libshim.so"
if grep -q 'P21' "$1"; then "$root/tools/emit_ir.sh" "$work/par" shim-par >"$work/par.log" 2>&1 || { tail -20 "$work/par.log"; exit 2; }; lib="$lib,$work/par/release/libshim.so"; fi
"$root/engine/target/release/engine" replay "$1" "$root" "$lib"
