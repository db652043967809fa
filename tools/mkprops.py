#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PAL="core/src/parse/pallet.rs"; TERM="core/src/term.rs"; LIB="core/src/lib.rs"; SCOPE="core/src/scope.rs"
STO="core/src/parse/storage.rs"; OVR="core/src/parse/overhead.rs"; PM="core/src/parse/mod.rs"
CLI="cli/src/main.rs"; WEB="web/src/main.rs"; HTML="web/src/html.rs"; CMP="web/templates/compare.stpl"

p("C01","Parsed weight equations mean what the Rust source says",
  "Whenever a weight function's body is accepted, its equation evaluates in the time and in the proof dimension to exactly what the Rust expression denotes, for all component values and all read/write prices (reads and writes cost time only). Every body that the Substrate benchmark templates emit is accepted: legacy `as Weight`, `from_ref_time`, and chromatic `from_parts`/`from_proof_size`/`zero`, with database reads and writes and component multiplications. A body with operations outside that vocabulary is rejected and never silently read as something else.",
  ["inputs"],"all weight-function bodies over the template grammar and its type-correct closure, all component values, all read/write prices, both dimensions",
  "The tests pin the parsed tree of a few dozen hand-written expressions; they do not vary nesting, syntax mixtures, several components or the second dimension.",
  [PAL,TERM,"core/src/traits.rs"],[("expression parser",PAL),("chromatic to one-dimensional projection",TERM)])
p("C02","Component ranges are read exactly as annotated",
  "For every weight function, each doc line of the form ``The range of component `x` is `[min, max]`.`` gives exactly that component exactly that inclusive range, with digit-group underscores ignored (component names are single letters of either case, an underscore prefix is not part of the name), whatever other doc lines, attributes and components surround it; a function without such a line has no ranges. An annotation whose minimum exceeds its maximum or whose bounds do not fit 32 bits makes the weight implementation be rejected rather than be read with a different range.",
  ["inputs"],"all sets of annotations (component names, bounds, digit grouping, spacing, order, surrounding doc lines and attributes) on all functions",
  "The tests try a handful of fixed annotation strings on single functions.",
  [PAL],[("doc attribute regex and bounds parsing",PAL)])
p("C03","Every weight function of the right impl is extracted once",
  "From a weight file the extrinsics returned are exactly the functions of the first impl block, in file order, that is written for `WeightInfo`, `SubstrateWeight` (generic or not) or `()` and whose functions are all understood weight functions: one entry per function, in source order, with the function's own name, equation and ranges and the given pallet name. Impl blocks for other types, traits, structs, constants and other items never contribute; a file with no such impl is an error, never an empty success.",
  ["inputs"],"all weight files: any number and order of items, impl blocks for right and wrong types, understood and not understood functions",
  "The tests look at single-impl snippets and count extrinsics of a few checked-in files.",
  [PAL],[("impl selection",PAL),("method handling",PAL)])
p("C04","Storage and overhead weight files parse to the constants they declare",
  "A RocksDB/ParityDB weight file yields the database kind and the read and write weights it declares, and a block-execution/extrinsic-base file yields the right kind and weight, for any literals, sums and products over the known constants (1 ns = 1000 ps), with or without the `constants` module around the macro. Auto-detection classifies every pallet, storage and overhead file as what it is and anything else as none of them.",
  ["inputs"],"all storage and overhead declarations over the template grammar, all file kinds for auto-detection",
  "The tests hold a few fixed files and literals.",
  [STO,OVR,PM,SCOPE],[("parameter_types macro parsing",STO),("overhead constant parsing",OVR),("auto-detection order",PM)])
p("C05","No input text or bytes can crash the parsers",
  "For every byte string, the pallet, storage, overhead and auto-detecting parsers return a result or an error and never panic; and whatever they accept can be displayed and compared, in every dimension and with every evaluation method, without a panic.",
  ["inputs"],"all byte strings, in particular near-valid weight files with arbitrary tokens, literals and structures",
  "Tests feed a few malformed snippets; the space of syntactically valid Rust that is not a weight file is unbounded.",
  [PAL,STO,OVR,PM,LIB],[("error returns of the parsers",PAL)])
p("C06","A displayed weight equation denotes the same function as the equation",
  "For every weight equation and every assignment of its variables, evaluating the displayed text (with its K/M/G/T suffixes and usual precedence and brackets) gives the value of the equation, up to the two-decimal rounding of each displayed constant. Terms may be left out of the text only when they contribute nothing.",
  ["inputs"],"all equations (sums and products of constants, scalars and variables of any shape) and all assignments",
  "Tests compare about ten equations with expected strings.",
  [TERM],[("bracketing and 0/1 elision",TERM)])
p("C07","Formatted values are accurate and in the right unit",
  "Every weight, size or count is displayed with the largest unit that does not exceed it (ps/ns/us/ms/s by 1000; B/KiB/MiB/GiB by 1024; none/K/M/G/T by 1000) and the displayed number times its unit differs from the exact value by at most half of the last displayed digit. Values below the first threshold are shown exactly.",
  ["inputs"],"all 128-bit values, in particular both sides of every unit boundary, in all three formats",
  "Tests check a table of values.",
  [LIB],[("unit thresholds",LIB)])
p("C08","Equation evaluation is exact saturating arithmetic",
  "Evaluating an equation gives the mathematical value of its sums and products under the given scope, capped at the largest 128-bit number, never a panic or a wrapped result; it is an error exactly when it reaches a variable the scope does not define. Free and bound variables partition an equation's variables by whether the scope defines them, and substituting a variable by an equation is the same as evaluating with that variable bound to it.",
  ["inputs"],"all equations, scopes and values up to 128 bits",
  "Tests evaluate a few small equations; none reaches large values or nested scopes.",
  [TERM,SCOPE],[("evaluation",TERM),("substitution",TERM)])
p("C09","Evaluation methods set components as documented",
  "For base and both asymptotic methods the reported old and new values are the two equations evaluated with every component at, respectively, its range minimum (0 if unannotated) or its range maximum; where only one version annotates a component that range is used for both, where both annotate different ranges the guessing methods take the smallest minimum or largest maximum, and an unannotated component has guessed maximum 100. Reads and writes are priced at 25 us and 100 us in time and at nothing in proof size. The reported variables are the ones the values were computed with.",
  ["inputs","configurations"],"all pairs of extrinsics (or one missing), range annotations present, missing or differing per side, methods base, asymptotic and exact-asymptotic, both dimensions",
  "Tests hold a few fixed term pairs per method.",
  [LIB],[("component instantiation",LIB),("method to strategy mapping",LIB)])
p("C10","The worst-case methods report the greatest relative increase",
  "For the exact-worst and guess-worst methods the reported change is attained at some assignment of the components to their range ends, and no assignment of in-range component values gives a greater relative increase (both equations being linear in each component, with non-zero old weight). This holds whatever the number of components up to the limit and in both dimensions.",
  ["inputs"],"all pairs of equations linear in each component, all ranges, all corner and interior assignments, both dimensions",
  "Tests check a few two-component examples at hand-picked corners.",
  [LIB],[("enumeration of range corners",LIB),("maximum by relative change",LIB)])
p("C11","Exact methods never guess, and one failing call never spoils the rest",
  "The exact methods give a value only if every component of the two equations has a range and the two versions do not annotate different ranges; otherwise that extrinsic is reported as failed with a message naming the component and call, and guessing methods never fail for these reasons. More than 16 components is a failure of that extrinsic for every method, never a wrong value. All other extrinsics of the same comparison are reported as if compared alone, and repeating the comparison gives the identical report including messages.",
  ["inputs","configurations"],"all comparisons mixing complete, missing and conflicting range annotations and component counts around the limit, all methods",
  "Tests have single-extrinsic examples; none mixes failing and succeeding calls or repeats runs.",
  [LIB],[("exact strategies",LIB),("16 component limit",LIB),("per-extrinsic error capture",LIB)])
p("C12","A comparison covers exactly the calls of both sides",
  "Comparing two sets of extrinsics yields exactly one row per (pallet, extrinsic) present in either set and accepted by both the pallet and the extrinsic regex filters, in lexicographic order of pallet then extrinsic; a call only in the new set is Added, only in the old set Removed, with equal equations Unchanged, otherwise Changed. No two calls of different pallets are ever paired, and an invalid filter regex is an error.",
  ["inputs"],"all pairs of extrinsic sets including equal extrinsic names in different pallets, all regex filters",
  "Tests compare a few files and never vary both the pallet and extrinsic filters over colliding names.",
  [LIB],[("name union",LIB),("filters",LIB)])
p("C13","Comparison is symmetric, reflexive and independent of order and dimension",
  "Comparing a version with itself reports every call Unchanged with 0% change; swapping the versions swaps Added and Removed and the reported old and new values (for methods with one evaluation point); the order of files and of extrinsics in them does not influence the report. Changes of constants and component factors confined to one dimension are invisible when comparing the other.",
  ["inputs","configurations"],"all pairs of versions, all permutations of their files and functions, all methods and both dimensions",
  "A metamorphic relation over arbitrary inputs; tests only check that one file has no changes to itself.",
  [LIB,TERM],[("name-keyed pairing",LIB),("dimension projection",TERM)])
p("C14","Threshold and change-type filters keep exactly the matching rows",
  "Filtering keeps a row if and only if it is failed, or its change type is in the requested set (all types if none is requested) and it is Added or Removed, or Changed with a magnitude of at least the threshold percent, or Unchanged with a zero threshold. Rows keep their order and content.",
  ["inputs"],"all reports, thresholds (at, just above and below the actual changes) and subsets of change types",
  "Tests check the end-to-end output with one or two thresholds.",
  [LIB],[("filter_changes",LIB)])
p("C15","Reports are sorted with the worst change on top",
  "Sorting a report is a permutation of its rows ordered Failed, Unchanged, Added, Removed, Changed and, within a type, by ascending relative change to a thousandth of a percent (beyond 10^35 percent all are alike), for any mix of rows including several failed or warned ones; sorting a sorted report changes nothing. The command line prints the reverse for files and for commits, so that the greatest increase is listed first among the changes.",
  ["inputs"],"all multisets of rows in all input orders",
  "No test sorts reports with several failed, warned and infinite rows.",
  [LIB,CLI],[("row order",LIB)])
p("C16","Every row is arithmetically self-consistent",
  "In every successful row the old and new value equal the shown equations evaluated under the shown variables, the relative change is 100*(new-old)/old of these two values (0 when both are zero, infinite when only old is), and a missing side has no value and no equation. This holds for any equations, including zero weights in the compared dimension.",
  ["inputs","configurations"],"all comparisons over all methods and dimensions including all-zero and one-sided-zero weights",
  "Tests check a few percent values; none has a zero weight.",
  [LIB],[("percent",LIB),("row construction",LIB)])
p("C17","Excessive reads and writes are always warned about",
  "A row carries a warning if and only if the newer available equation multiplies the READ or WRITE price directly by a literal count greater than 1000 (the argument of `reads` or `writes`), however the count is written in the source; the warning names the call, the larger count and whether it is reads or writes. A warning never changes the row's values, change type or position.",
  ["inputs"],"all equations with literal read and write counts around the limit in all supported syntaxes, both dimensions, any position in the equation",
  "Tests check the factor search on four small terms.",
  [LIB,TERM],[("sanity check",LIB),("largest factor search",TERM)])
p("C18","The command line report shows exactly the computed comparison",
  "For every pair of file sets and every option, the table, Markdown and CSV outputs of `subweight compare files` and `compare commits` contain one row per row of the filtered, worst-first sorted comparison (failed ones in the tables as ERROR), with the file, call, formatted old and new value and change, and with `--print-terms` the equations and variables, each under its own header column. Additions and increases are coloured red, removals and decreases green. With `--no-color` the output has no escape codes and shows the same cells.",
  ["inputs","configurations"],"all weight file pairs, methods, units, thresholds, change filters, regex filters, formats, print-terms, no-color, path prefixes",
  "Tests check for the presence of substrings in a few runs.",
  [CLI],[("CSV writer",CLI),("table writer",CLI)])
p("C19","The command line rejects bad input cleanly and isolates it on request",
  "`subweight` exits non-zero with an error message, and prints no report and never panics, for unreadable or unparsable files, invalid regexes, unknown options values or unsupported formats. With `--ignore-errors` exactly the unparsable files are left out and the result is that of the remaining files; `parse files` succeeds if and only if all given files parse, and reports how many files it parsed.",
  ["inputs","configurations","fault_sequences"],"all mixes of valid, invalid, missing and non-UTF-8 files in all positions, all invalid option values",
  "Tests try one or two failing invocations.",
  [CLI,PAL],[("ignore-errors file loop",PAL),("error propagation",CLI)])
p("C20","Comparing commits equals comparing the files of those commits",
  "For any git history, `compare commits OLD NEW` gives the result of comparing the matching weight files as they are in the commit that each revision (branch, tag, hash, HEAD-relative expression) denotes when the command starts, whatever is checked out and whatever was compared before. With pulling enabled a branch means its newest commit at the remote; with forced checkouts local modifications are discarded and do not matter. Without them a local modification is never lost: one that is in the way of a checkout makes the comparison fail, any other counts on both sides. The library's own checkout and reset lead to that same commit.",
  ["histories","configurations"],"all histories (added, changed, deleted, renamed weight files, branches, tags), revision spellings, sequences of comparisons, forced and unforced checkouts, with and without a remote that moved",
  "The existing tests need a checked-out Polkadot and are not run; no test has a generated history.",
  [LIB],[("checkout of revisions",LIB),("fetch/reset",LIB)],
  [("working tree","the checked-out files that get parsed","the repository directory")])
p("C21","The path pattern selects exactly the matching weight files",
  "The files compared are exactly those below the repository that match one of the comma-separated glob patterns, each once, never a `mod.rs`, independent of where the repository lies, of the characters in its own path and of how that path is written (relative to any directory, with `./`, `..` or a trailing slash). Directories and the `.git` directory never count. A pattern containing `..` is refused, more matching files than the allowed maximum is an error, and pallets are named by their path relative to the repository.",
  ["inputs","configurations"],"all directory trees, glob pattern lists (overlapping, recursive, with wildcards and classes), repository locations and file limits",
  "No test exercises file listing on generated trees.",
  [LIB,PM],[("glob listing",LIB),("path stripping",PM)])
p("C22","Revision names can neither inject commands nor be misread",
  "A revision string that does not denote a commit gives an error and no report, whatever characters it has (option-like, path-like, refspec-like, empty, with spaces or shell characters), and no revision string can run a program, or make the comparison create, move or delete branches, tags or files outside of checking out the two commits. A comparison that is refused because of its revisions leaves HEAD, the refs, the index and uncommitted changes untouched.",
  ["inputs","configurations"],"all revision strings, forced and unforced, with and without pulling",
  "Tests try one unknown tag name against a repository that is usually absent.",
  [LIB],[("git invocations",LIB)])
p("C23","The web comparison shows exactly the computed comparison",
  "For every valid query, `/compare` answers with one table row per row of the filtered and sorted comparison of the two commits, showing the call, formatted values, relative and absolute change with sort keys that order like the exact values, equations and variables that were used, code links to the right organisation, repository, revision and file, all errors and warnings, and a form that reproduces the query. Invalid queries and failing comparisons give an error page with status 500 and no table.",
  ["inputs","configurations"],"all histories, queries (method, unit, threshold, filters, ignore_errors, git_pull defaults) and invalid queries",
  "The web tests only start the server and query the version.",
  [WEB,HTML,CMP],[("compare handler",WEB),("row rendering",CMP)])
p("C24","The web cache is transparent",
  "Over any history of requests, a `/compare` answer is the answer for exactly its own arguments: a query repeated within the cache lifetime of ten minutes after its result was computed gives the same table marked as cached, one repeated later is computed again, queries that differ in any argument (revisions, pattern, filters, threshold, unit, method, error handling, repository) never share a result, and a failing query is never cached, so that it succeeds once its cause is gone.",
  ["histories"],"all sequences of queries over colliding and near-identical arguments, interleaved with new commits appearing in the repository",
  "No test queries `/compare` at all.",
  [WEB],[("cached comparison",WEB)],[("cache","results by complete argument set",WEB)])
p("C25","Nothing from a query or repository becomes active page content",
  "Whatever strings the query arguments, revision names, file names, equations, errors and warnings consist of, the HTML pages of the web server have the same element and attribute structure as for harmless strings of the same kind: the text is shown as text, and no markup, script or attribute of foreign origin is introduced.",
  ["inputs"],"all strings with HTML-significant characters in every argument and every repository-controlled name, on every page",
  "No test renders a page with hostile content.",
  [WEB,HTML,CMP,"web/templates/error.stpl"],[("template escaping",CMP),("link builders",HTML)])
p("C26","Concurrent web requests do not disturb each other",
  "For any set of simultaneous requests, over the same and different repositories, revisions and arguments, every request is answered and every answer equals the one the same request gets when it is alone; comparisons of one repository never see the files of another request's checkout.",
  ["schedules","histories"],"all multisets of concurrent compare requests with conflicting checkouts on one and several repositories",
  "Only the lock primitive is unit tested, no request is.",
  [WEB],[("per-repository exclusive permit",WEB)],[("repository lock","exclusive access to one checkout",WEB)])
p("C27","Server start-up, version and branch endpoints tell the truth",
  "The server starts if and only if at least one repository is configured, every configured one exists with an https GitHub origin, the static directory exists, and a certificate comes with a key, and then exposes exactly the configured repositories and the files of the static directory (with a certificate only over TLS). `/version` reports the running version and `/version?is=v` succeeds exactly for that version (also with its plus sign read as a space); `/branches` lists exactly the branches and tags of the repository's remote (names with a brace excepted) with the first 12 digits of the hash they point to, and is an error for unknown repositories.",
  ["inputs","configurations"],"all origin URLs, repository configurations, version strings, remote branch and tag sets",
  "Tests check one start-up, the plain version and four origin URLs.",
  [WEB,"web/src/git.rs"],[("origin parsing","web/src/git.rs"),("branch listing",WEB)])
p("C28","Option names mean the same everywhere",
  "Every evaluation method, dimension and change type is accepted under each of its documented names wherever it can be given (command line, string parsing and deserialisation, web query), always with the same meaning; path-stripping modes likewise in string parsing. The advertised list of names of an option has exactly its documented names (`weight` need not be listed), and a listed value goes by the name it is listed with. `weight` is another name of `time` in string parsing and web queries. Any other name is rejected.",
  ["inputs","configurations"],"all documented names (in any letter case on the command line, exactly as documented elsewhere) and arbitrary other strings, for every option and every entry point",
  "Tests only iterate over the advertised names at one entry point.",
  [LIB,CLI,WEB,PM],[("name parsing",LIB),("advertised variants",LIB)])

p("C29","The web pages open the comparison that was chosen",
  "For every repository that the web pages know a path pattern for and every branch name: the start page opens a comparison of exactly the chosen repository, first and second commit, which are also the ones it shows for verification, and fetching the branches again keeps a choice that still exists; the merge request page lists every merge request and opens, for one of the repository itself, the comparison of its base with its head (and none for forks); and changing a field of the comparison page leads to the same comparison with only that field changed. The opened address is one that the server decodes to these values.",
  ["inputs","histories"],"all branch names that git allows, all argument values, all sequences of choices and fetches, all lists of merge requests including those of deleted forks",
  "No test runs the scripts of the pages.",
  ["web/static/root.js","web/static/merge_requests.js","web/static/table.js","web/static/common.js"],[("form submission","web/static/root.js"),("merge request list","web/static/merge_requests.js"),("field changes","web/static/table.js")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
