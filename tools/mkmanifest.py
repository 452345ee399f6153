#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOTH = "bounded-exhaustive model checking: product of emitted LR tables with a reference LR(1) model over all grammars of a bounded space; all inputs up to a bound replayed on rustc-compiled parsers"
EXEC = "bounded-exhaustive exploration of rustc-compiled parsers against a reference model"
T = {
 "C01": BOTH, "C02": BOTH, "C03": BOTH, "C04": BOTH,
 "C05": BOTH + "; lexer error injected at every position",
 "C06": BOTH + "; every pull observed by an instrumented token source",
 "C07": BOTH + "; every set of entry points",
 "C08": "explicit-state reference LR(1) construction over every grammar of a bounded space, against the macro's verdict; accepted grammars compiled with rustc",
 "C09": "explicit-state reference LR(1) construction over every grammar of a bounded space, against the macro's verdict; conflicting cells compared in the product",
 "C10": "exhaustive enumeration of token patterns and pattern lists x all values of the token type, compiled and run against a reference matcher",
 "C11": BOTH + "; every permutation and renaming of declarations",
 "C12": "exhaustive enumeration of expansion histories, thread assignments and environments, in process and in rustc",
 "C13": "exhaustive interleavings (preemption-bounded, controlled scheduler), histories and nestings of real parse calls",
 "C14": "exhaustive enumeration of inputs and fault points (panic in each action, source, or error) with counted moves and drops",
 "C15": "exhaustive enumeration of notation combinations over all grammars of a bounded space; product and compiled comparison",
 "C16": "exhaustive enumeration of ill-formed variants (all single-token and item edits of base inputs, all faults at all places), against an independent reader",
 "C17": "bounded-exhaustive exploration of all accepted grammars and inputs with step, panic and stack monitors; product model for long inputs",
 "C18": "exhaustive enumeration of type/lifetime/binding configurations, compiled and run with identity-checked values",
}
NOTE = {
 "C01": "All grammars and inputs within the stated bounds; families with parameters up to 257. Trusts the reference model (cross-checked against an Earley recogniser at run time), the table reader (replayed on compiled parsers), rustc.",
 "C12": "Histories and thread assignments are exhaustive within bounds. OS-supplied randomness (hash seeds, address layout) cannot be enumerated: it is exercised by thousands of fresh processes.",
 "C13": "Interleavings at token pulls and semantic actions up to the stated preemption bound. Generated code uses no synchronisation, so finer interleavings matter only for unsynchronised statics, which safe Rust excludes.",
}
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in git("log", "--format=%H %s").splitlines() if " verif hook" in l]
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "cfg(parsegen_verif)", "enable": "harness/core builds /repo/src/lib.rs as an ordinary library; its build.rs passes --cfg parsegen_verif", "source_commits": hooks},
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"VERIF_TIER=quick ./run.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": T[p["id"]],
   "level": "model_checking",
   "level_note": NOTE.get(p["id"], "Exhaustive within the bounds listed in the evidence file; trusts the reference model in harness/vref and rustc. " + ("Product states are over the emitted tables; if a refactoring made them unreadable, only the compiled layer decides." if T[p["id"]].startswith(BOTH[:20]) else "")).strip(),
 } for p in props],
 "not_applicable": [],
}
open(f"{root}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
