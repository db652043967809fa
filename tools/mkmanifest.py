#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, by which technique, with what assurance."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
COMMON = " Assurance is that of a search: nothing is proved beyond the inputs that were generated. Trusted: the harness' own oracle, rustc, the proptest generators."
C = {}
def c(id, technique, note): C[id] = (technique, note)
c("C01","property-based testing: generated weight expressions rendered in all syntax versions, differential against a reference evaluator, mutation into the unsupported vocabulary","Bodies are generated from an abstract syntax whose value is known by construction; both dimensions and several price scopes are evaluated.")
c("C02","property-based testing: generated annotations in generated doc comments, compared with the generated ranges","Every generated annotation set is read back from a whole file.")
c("C03","property-based testing: generated files of impl blocks and decoys against a reference selection","File-level model of which impl is picked and which functions it contributes.")
c("C04","property-based testing: generated storage and overhead files with known constants, classification of generated files of all kinds","Literal arithmetic is evaluated independently.")
c("C05","fuzzing: random bytes, mutated corpus files, generated syntactically valid Rust, token soups; every accepted result is displayed, compared and evaluated; panics are violations; coverage-guided (libFuzzer) in the thorough tier","In-process catch_unwind with overflow checks and debug assertions enabled.")
c("C06","property-based testing: round-trip of generated terms through their displayed text with an independent parser and interval evaluation","Terms of bounded depth, assignments including 0, 1 and huge values.")
c("C07","property-based testing: generated values around all unit boundaries, inverse parsing with exact rational error bound","Values over the full 128-bit range.")
c("C08","property-based testing: generated terms against a saturating big-number reference evaluator, metamorphic substitution","Literals up to the full 128 bits.")
c("C09","property-based testing: generated extrinsic pairs against a model of the component instantiation","Up to a handful of components; every range situation per component.")
c("C10","property-based testing: generated linear equations; brute force over all corners and random interior points as oracle","Exhaustive corners up to 6 components in quick, plus wide cases up to the limit.")
c("C11","property-based testing: generated mixes of failing and succeeding calls, differential against comparing each call alone, repeated runs","Component counts up to and above 16.")
c("C12","property-based testing: generated extrinsic sets and regex filters against a set model","Filter regexes come from a generated sublanguage whose matches are computed independently.")
c("C13","metamorphic property-based testing: self-comparison, swapping, permuting, perturbing one dimension","All methods and units.")
c("C14","property-based testing: generated reports and thresholds around actual changes against a reference filter","Rows are generated directly and through comparisons.")
c("C15","property-based testing: generated multisets of rows, permutation, order and reference-sort oracle","Includes several failed, warned and infinite rows.")
c("C16","property-based testing: recomputation of every row's arithmetic from the row itself and from the sources","Zero weights are generated with high density.")
c("C17","property-based testing: generated read and write counts around the limit in all syntaxes against a reference detector; metamorphic removal","Counts are known by construction.")
c("C18","property-based testing: the built command line program on generated files and options; parsed output compared with the library result under a reference filter, order and formatter","The program is run as a subprocess; tables, Markdown and CSV are parsed back.")
c("C19","fault injection with generated invocations: invalid files, options and regexes in all positions; model of the expected exit status and output","Subprocess runs; a panic is recognised by exit status and message.")
c("C20","stateful property-based testing: generated git histories and sequences of comparisons against comparing the checked-in file contents","Histories of a few dozen commits at most; local transports only.")
c("C21","property-based testing: generated directory trees and glob lists against an independent glob matcher","Trees of up to about forty files.")
c("C22","fuzzing of revision strings with a model of what denotes a commit, and invariants over refs, index, working tree and canary files","Hostile strings only ever name files of a scratch directory.")
c("C23","property-based testing: generated histories and queries against the running web server; the HTML is parsed and compared with the library result","One server per worker over loopback.")
c("C24","stateful property-based testing: generated request histories against a model of the cache keyed by complete arguments, with commits appearing in between and the server's clock being moved","The server's clock is moved by a preloaded library, not waited for.")
c("C25","fuzzing of page inputs with hostile strings; metamorphic comparison of the HTML structure with that of a harmless twin, plus marker text recovery","An own HTML tokenizer following the HTML5 tokenization rules decides the structure.")
c("C26","schedule fuzzing: generated batches of simultaneous requests compared with the same requests alone","The interleavings are those the operating system produces, with generated jitter.")
c("C27","property-based testing: generated origins, configurations, versions and remote refs against the running server","Start-up outcomes are those of real server processes.")
c("C28","property-based testing: all documented names and mutations of them through every entry point against one table","The table of documented names is part of the check.")
c("C29","model-based property-based testing: the pages' scripts are run on generated branches, merge requests and sequences of choices; the opened address is decoded and compared with the choice","The scripts run in node with a stand-in for the browser and jQuery.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = set(os.popen(os.path.join(V, ".build/target/release/verif") + " list").read().split("\n"))
claimed = {l.split(":")[0] for l in claimed if ":" in l}
checks, na = [], []
for p in props:
    id = p["id"]
    if id in claimed:
        t, n = C[id]
        checks.append({"property": id, "quick_cmd": f"bash check.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {id}",
            "evidence_file": f"evidence/{id}.json", "technique": t, "level": "exploration", "level_note": n + COMMON})
    else:
        na.append({"property": id, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks use the public API of subweight-core and the built programs. Replay: bash check.sh <ID> replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
