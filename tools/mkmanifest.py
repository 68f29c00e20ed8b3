#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {}  # id -> (technique, level note)
GEN = "property-based testing: constructive generator with expected result (spans included), shrinking"
MODEL = "property-based testing against a reference model, shrinking"
T["C01"] = ("fuzzing: structured and mutated random texts and bytes, deep and large inputs; panic/abort/hang monitor in a child process",
  "No panic, abort or hang on the generated inputs; sizes up to some 100 kB, 8 MB stacks. A hang is a case using over 90 s of CPU time.")
T["C02"] = ("fuzzing of repetitive and almost-valid 16 KiB texts with pest's step counter and the allocator as cost oracles, and CPU-time growth to 128 KiB",
  "At most 400 pest parser steps per byte (worst seen on the unchanged tree: under 40) and 1600 allocated bytes per byte (worst: 609); for one text in 30, eight times the length may take at most 32 times the CPU time (worst: 13), re-measured before it counts. Super-linear cost with a tiny constant can stay below that.")
T["C03"] = ("fault-injecting property-based testing: generated chunked, interrupted, failing readers; differential between entry points",
  "Readers are generated (chunk sizes, interruptions, errors at any read, invalid UTF-8); threads are few and unsynchronised.")
T["C04"] = ("property-based testing: span invariants over accepted generated and mutated texts", "Invariant stated from the property text alone; what lies between spans is checked by a small independent scanner.")
T["C05"] = ("property-based testing: decoding oracle over the text under every span of accepted texts", "Decoding is re-implemented independently of enquote.")
for i in ["C06","C07","C08","C09","C10","C11","C12","C13"]:
    T[i] = (GEN, "The generator knows what it wrote; every content and span is compared exactly. Trusts the renderer, which C27's independent reference parser cross-checks on the same files.")
T["C14"] = ("metamorphic property-based testing: two random renderings of one meaning", "Only layouts the renderer can produce.")
T["C15"] = ("metamorphic property-based testing: concatenation of texts", "Pieces are accepted texts that do not end inside a continuation or quotation, decided by the reference parser.")
for i in ["C16","C17","C18"]:
    T[i] = (MODEL, "Model written from the property text over generated files.")
T["C19"] = ("property-based testing: round-trip and reference decomposition of reference-like strings", "Model written from the property text.")
T["C20"] = (MODEL + " (generated variable graphs, including chains and cycles)", "Both parsed global ARGs and plain maps; expansions beyond a fixed number of calls are not run.")
T["C21"] = ("property-based testing: digests with one generated defect, or none", "Model written from the property text.")
T["C22"] = ("stateful model-based property testing: generated sequences of splices against a segment model", "Disjoint, nested (inner first) and repeated spans, as in the statement.")
T["C23"] = ("metamorphic property-based testing: generated rewrites of parsed spans, re-parsed", "Replacement texts are valid for the kind of element replaced.")
T["C24"] = ("property-based testing: line and column recomputed from the text for every span", "Model written from the property text.")
T["C25"] = ("property-based testing: every accessor on every parsed instruction", "Exhaustive over accessors, sampled over instructions.")
T["C26"] = ("property-based testing: generated malformed instruction inside a valid file; rejection and error location", "Only the generated families of malformation; the location must fall inside the malformed text.")
T["C27"] = ("differential fuzzing against an independent hand-written reference parser", "Trusts the reference parser, which is cross-checked by the constructive generator's expected results.")
T["C28"] = (MODEL + " (Docker's line joining)", "Model of Docker's line processing written from its documentation.")
T["C29"] = ("round-trip property-based testing: any value, any quoting, every quoted position", "Escape spellings and wrong escapes come from lists.")
T["C30"] = ("property-based testing: values rebuilt by random constructors, altered in one random field, compared pairwise", "Equality is judged field by field through public fields, independently of the library's PartialEq.")
T["C31"] = ("stateful model-based property testing: interleaved query histories over several near-identical documents, partly from threads", "Answers come from reference models. Thread schedules are not controlled; the library shows no shared state to schedule around.")
T["C32"] = ("metamorphic, model-based property testing: resolve, print, splice and re-parse", "Combines the models of C18, C19, C20 and the renderer.")
T["C33"] = ("differential fuzzing against the reference parser's cause and place of rejection", "The reference parser decides the cause; the place is bounded from below only (C26 bounds it from above for generated malformations).")
T["C34"] = ("stateful model-based property testing: generated edit histories of a document's instruction list, queries compared with reference models", "Global arguments and FROM numbers are recomputed after every history; documents where they disagree with the list are out of scope.")
T["C35"] = ("fuzzing of large structured texts with the allocator as cost oracle and processor-time growth to eight times the size", "At most 400 allocated bytes per byte of text (worst seen: under 100); for one case in six, eight times the length may take at most 32 times the CPU time, re-measured before it counts.")
checks = []
for p in props:
    i = p["id"]
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": [],
  "notes": "No hooks in /repo. known_findings.txt lists the defects repaired by fix: commits."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
