#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, sys
NOTE = "All inputs, all lengths, every x86-64 ISA level reachable by dispatch, proved on the IR of the current source. Trusts rustc/LLVM front passes, the VC generator in /verif/vcg, its intrinsic models, and z3. Obligations the engine cannot decide fall back to a bounded native check and are labelled so in the evidence."
CL = {
 "C01": "", "C02": "", "C03": "", "C04": "", "C05": "", "C06": "", "C07": "", "C08": "", "C09": "", "C10": "", "C11": "", "C12": "", "C13": "", "C14": "",
 "C15": "", "C16": "", "C17": "", "C18": "", "C19": "", "C20": "", "C21": "", "C22": "", "C23": "", "C24": "", "C25": "", "C26": "",
}
EXTRA = {"C24": "Instead of x86-64: the IR of an aarch64-unknown-linux-gnu build (NEON). A counterexample cannot be executed here; it is confirmed by re-verifying at its concrete size.",
 "C25": "Instead of x86-64: the IR of a wasm32-unknown-unknown build with simd128 (32-bit usize). Counterexamples are replayed on the real code compiled to WebAssembly, run by node.",
 "C26": "Instead of x86-64: the IR of i686-unknown-linux-gnu (all ISA levels), powerpc64-unknown-linux-gnu (big-endian, scalar) and wasm32 without simd128 (scalar) builds. The last is replayed in node; for the first two a counterexample is confirmed by re-verifying at its concrete size."}
NA = {}
exec(open(__file__.replace("mkmanifest.py", "claims.py")).read())
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"./check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.py {p}", "technique": "contract-based deductive verification (VC generation over rustc's LLVM IR of the real code, z3 + complete enumeration)",
   "level": "proof", "level_note": (EXTRA.get(p, "") + " " + NOTE).strip()} for p in CL if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in CL if p not in CLAIMED],
 "notes": "known-findings.json lists findings and repaired defects; replays/ and build/ are scratch."}
json.dump(m, open(__file__.replace("tools/mkmanifest.py", "MANIFEST.json"), "w"), indent=1)
