#!/bin/bash
# run_check.sh PROPERTY: builds the engine and the IR of /repo's current sources, then decides the property.
root="$(cd "$(dirname "$0")/.." && pwd)"
prop="$1"; shift
tier="${VERIF_TIER:-quick}"; seed="${VERIF_SEED:-1}"
work="$(mktemp -d "${TMPDIR:-/tmp}/vf.XXXXXX")" || exit 2
trap 'rm -rf -- "$work"' EXIT
if ! ( cd "$root/engine" && cargo build --release --offline --locked ) >"$work/engine.log" 2>&1; then tail -20 "$work/engine.log"; echo "engine build failed"; exit 2; fi
second=; ir="$work/ir/release/deps"; lib="$work/ir/release/libshim.so"
if [ "$prop" = P21 ]; then # two builds: the sequential one and the one with the rayon feature
  "$root/tools/emit_ir.sh" "$work/par" shim-par >"$work/par.log" 2>&1 & second=$!
  ir="$ir,$work/par/release/deps"; lib="$lib,$work/par/release/libshim.so"
fi
if ! "$root/tools/emit_ir.sh" "$work/ir" >"$work/ir.log" 2>&1; then [ -n "$second" ] && wait "$second"; tail -20 "$work/ir.log"; echo "the library does not build"; exit 2; fi
if [ -n "$second" ] && ! wait "$second"; then tail -20 "$work/par.log"; echo "the library does not build with the rayon feature against the contract in shim-par/rayon"; exit 2; fi
"$root/engine/target/release/engine" check "$prop" --ir "$ir" --lib "$lib" --root "$root" --tier "$tier" --seed "$seed" "$@"
