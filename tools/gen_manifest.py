#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("model-based random histories on the real PolyTracker object, bit-set reference model",
            "random histories; trusts the independent trace parser and ASan/UBSan build of the recording library"),
    "C02": ("model-based random histories with branches, closure oracle over the written trace",
            "random histories; the oracle recomputes the ancestry closure from the recorded combinations"),
    "C03": ("generated records, round trip through the C++ and the Python decoder against an independent codec",
            "field values weighted to bit-width boundaries; not exhaustive over the 2^64 encodings"),
    "C04": ("generated bitmap operation sequences against a set model, plus whole histories",
            "several capacities and bucket types; sizes up to a few thousand bits"),
    "C05": ("generated section layouts (compiled per seed) and write histories against layout invariants",
            "96 generated layouts per seed on the quick tier; real sections"),
    "C06": ("generated recordings written by the C++ library and read back with the Python library (round trip)",
            "random recordings; both ends are the repository's own code, the oracle is what was requested"),
    "C07": ("generated call histories, recorded by the C++ log and replayed by the Python reader against a stack model",
            "random call trees with unwinding; ids and labels to full width"),
    "C16": ("generated fill-to-capacity histories with a guarded memory model",
            "small-capacity instances of the real section templates plus full-size limits for sources and functions"),
    "C17": ("generated traces, mapping compared with an independent reachability computation",
            "traces up to a few thousand labels"),
    "C18": ("generated traces, cavities compared with an independent byte-by-byte computation",
            "traces up to a few thousand labels, files up to about 4 KiB"),
    "C19": ("generated traces, forest compared node by node with the recorded graph",
            "traces up to a few thousand labels"),
    "C20": ("generated traces and query sets compared with independent reachability",
            "traces up to a few thousand labels"),
    "C21": ("generated sets of tainted bytes against plain set and substring operations", "small sets, up to four inputs"),
    "C23": ("generated function-event histories against a name-to-index model", "random histories, single and repeated names"),
    "C24": ("generated grammars and sentences against an independent recogniser", "small grammars without empty rules, sentences up to 8 bytes"),
    "C25": ("model-based random operation histories on the cache and the ordered set", "histories up to 80 operations"),
    "C26": ("generated directed graphs against brute-force definitions", "graphs of up to ten nodes"),
    "C08": ("generated I/O programs executed on the real DFSan runtime, byte-position reference model", "see DESIGN.md"),
    "C09": ("generated I/O programs executed on the real DFSan runtime, byte-position reference model", "see DESIGN.md"),
    "C10": ("differential execution of generated call sequences: intercepted wrapper against the plain library call", "see DESIGN.md"),
    "C11": ("generated memory operations on the real DFSan runtime against a shadow model", "see DESIGN.md"),
    "C12": ("generated comparisons, searches and conversions: differential against libc plus provenance model", "see DESIGN.md"),
    "C13": ("generated environments and argument vectors against the documented selection", "see DESIGN.md"),
    "C14": ("generated termination points and ways of ending, trace compared with what was recorded before", "see DESIGN.md"),
    "C15": ("generated concurrent recording programs (also under TSan), history invariants of the resulting trace", "see DESIGN.md"),
    "C22": ("generated data-flow programs executed on the real runtime and analysed by the Python library, byte-precise reference", "see DESIGN.md"),
    "C27": ("random IR programs instrumented with the repository's passes and build commands, differential against an interpreter and the plain program", "passes compiled for LLVM 18; programs of up to about a hundred statements"),
    "C28": ("random IR programs instrumented, run and traced, compared with an interpreter that tracks exact dependencies", "passes compiled for LLVM 18; programs of up to about a hundred statements"),
    "C29": ("random IR programs instrumented, run and traced, log compared with the events of an interpreter", "passes compiled for LLVM 18; programs of up to about a hundred statements"),
    "C30": ("generated executions presented as traces, every navigation compared with the generated call tree", "call trees of up to about forty events, two threads"),
    "C31": ("generated recursive-descent parses presented as traces, extracted trees and grammars checked against the input; generated trees against a list model", "inputs of up to fourteen bytes; trees to 2000 levels"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(V, "checks", i.lower() + ".py"))]
m = {"version": 1, "setup_cmd": "python3 lib/vbuild.py all",
     "checks": [{"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                 "technique": "property-based testing: " + T[i][0], "level": "exploration", "level_note": T[i][1]}
                for i in have],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
     "notes": "No hooks were needed in /repo. Known findings: known_findings.txt. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
