#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = "symbolic execution of the compiled crates' LLVM IR with SMT (bit-vectors)"
tech = {"C16": T + ": every access, initialisation and allocation event checked", "C17": "relational " + T + ": one input on all processors and builds",
        "C20": T + ": 64-bit lengths fully symbolic", "C23": T + ": schedules chosen symbolically",
        "C28": T + ": two threads, every schedule within a bound on switches, happens-before race detection"}
note = ("bounded: every value of the symbolic bytes, for each input length, destination length, variant, entry point and processor listed in the evidence's bounds; "
        "counterexamples are replayed on the natively compiled crate before they are reported. "
        "Trusted: LLVM below the encoded IR, the engine and its intrinsic models (compared with the compiled code on solver-made inputs in every run), the solver.")
extra = {"C20": "Lengths are quantified over all 2^64 values, so the length formulas have no size bound. ",
         "C17": "Eight or more builds/processors execute in one job on the same symbolic input. ",
         "C23": "rayon is replaced by a stub that hands chunks out in an order chosen by the solver; real thread interleaving inside rayon is outside the claim. ",
         "C28": "Two threads, at most 2 switches (3 on avx2; thorough 4) at atomic accesses to shared memory; sequentially consistent interleavings, races judged by the orderings in the code. "
                "A counterexample is replayed in two real threads that hand over at the same accesses; a data race whose effect does not show on this processor is reported once both accesses are seen to happen. ",
         "C24": "All operand values; one vector per operation. ", "C25": "All values of whole vectors. ",
         "C26": "The crates are compiled for aarch64-unknown-linux-gnu; the replay runs the same IR translated to this host, with the NEON instructions as C functions. ",
         "C27": "The crates are compiled for wasm32; the replay runs the WebAssembly module in node. "}
na = {}
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": tech.get(p, T), "level": "model_checking", "level_note": extra.get(p, "") + note}
                for p in props if p not in na],
     "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
     "notes": "No hooks in /repo: everything is reached through public functions. known-findings.txt lists what was found and repaired."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
