#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED="P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P21".split()
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
NOTE="Contracts on every public conversion, discharged on the LLVM IR of /repo's sources for all sample values and all x86 paths: at the concrete sizes the evidence lists, and for symbolic width, height and strides by inferred loop invariants (remainder classes in the evidence; rotation only at concrete sizes)."
TECH={"P21":"contract-based deductive verification: relational contract between the rayon build (over rayon's contract, rows in reverse order) and the sequential build, equality of symbolic output terms","P18":"contract-based deductive verification: relational contract between two functions, equality of symbolic output terms","P15":"contract-based deductive verification: postconditions of the container functions discharged by z3/cvc5 on the compiled code","P14":"contract-based deductive verification: path conditions of the compiled validation code discharged by z3/cvc5"}
LEVEL={"P14":"proof","P15":"proof"}
NOTES={"P21":"All conversions, all sample values, all x86 paths: equality of the terms the two builds leave in each element of each target, padding included; concrete sizes and symbolic sizes by inferred loop invariants. Two row orders; rayon itself replaced by its contract (shim-par/rayon), assumed.","P20":"Luma and chroma of every element, all sample values, four transfers; chroma bounded against the exact mean in linear light. Tables compared with the published transfer functions entry by entry; f32 pow as computed by the host.","P16":"For every conversion with a colour matrix, 6 standard and 3 custom matrices, both ranges, every depth, mode and x86 path, all sample values: output within the proved fixed-point bound of the exact conversion (slack 0.02 steps), R=G=B for neutral chroma, neutral chroma for grey. Fixed-point bounds at 34x2 (quick), neutrality also for symbolic sizes by inferred loop invariants; custom weights bounded to 3 pairs.",
 "P18":"80 pairs of functions, all sample values, all x86 paths; equality of the symbolic terms both runs leave in each output element. Concrete sizes and, by inferred loop invariants, symbolic sizes (remainder classes in the evidence).","P15":"alloc, to_fixed, from_mut and check_constraints of every mutable image type and subsampling (T = u8, u16): every path of the LLVM IR of /repo's sources, dimensions symbolic; each postcondition is a z3/cvc5 query. Assumed: planes of at most 2^46 elements, rows that fit the u32 stride fields, a correct allocator, rustc's IR, the engine's integer semantics.","P14":"For every public conversion and option set: every path of the validation code (LLVM IR of /repo's sources, dimensions, strides and lengths symbolic, no bound below 2^32 / 2^62) is shown by z3/cvc5 to reject malformed arguments before an image byte is touched and never to reject well-formed ones. Trusted: rustc's IR, the engine's integer semantics, the solvers."}
NA={}
m={"version":1,"setup_cmd":"cd engine && cargo build --release --offline --locked",
 "checks":[{"property":p,"quick_cmd":f"tools/run_check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough tools/run_check.sh {p}","technique":TECH.get(p,"contract-based deductive verification: symbolic execution of the compiled functions against per-element contracts"),"level":LEVEL.get(p,"other"),"level_note":NOTES.get(p,NOTE)} for p in CLAIMED],
 "not_applicable":[{"property":p,"reason":NA.get(p,"machinery not complete yet")} for p in ids if p not in CLAIMED]}
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
