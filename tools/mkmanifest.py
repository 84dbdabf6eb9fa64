#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "context-sensitive lock-set/typestate dataflow over go/ssa"
checks = {
 "C01": (L, "Every path of every public repository operation is covered (loops by fixpoint, calls inlined). Trusts sync's documented behaviour and that repositories come from the public constructor."),
 "C02": (L, "Lock acquisition order, re-acquisition and joins over all operations. User components calling back into the same repository are excluded."),
 "C03": (L + " with pairwise access/lock-set check", "Every access to shared abstract objects, summarised per container; per-iteration elements are distinguished by induction variables. Distinctness of the indexes an alias resolves to rests on C07."),
 "C04": (L + ", two-phase locking rule", "Two-phase locking implies serialisability of the operations' accesses to guarded data; repeated reads in the current section discharge stale ones."),
 "C05": (L, "Each goroutine start is joined on every path through the wait group it reports to."),
 "C06": (L + " with panic edges", "Panic edges out of every call of a user component in the caller's goroutine; panics in started goroutines are outside the property."),
}
M = "context-sensitive mod/escape analysis over access paths on go/ssa"
checks.update({
 "C14": (M, "Every path of every read operation and engine, callees inlined; the standard library is trusted to modify only what its sorting functions are given; user components are assumed to behave."),
 "C15": (M, "Every value returned by every read operation is followed through fields, elements and captured variables."),
 "C16": (M, "Every object reachable from a constructed index or repository; package variables over all public functions."),
 "C28": (M, "Every tokenizer, filter and predicate declared in the package."),
})
A = "abstract interpretation of the operation (canonical shape/sequence domain over go/ssa) against its contract, by case analysis on how names relate"
for k, n in {
 "C07": "Each mutating operation is analysed from every abstract repository state satisfying the invariant; inductive, so it covers all histories.",
 "C08": "All abstract states and name relations; indexes are opaque (their own contract is C17).",
 "C09": "All abstract states and name relations; indexes and engines are opaque.",
 "C10": "All abstract states and name relations.",
 "C11": "All abstract states and name relations.",
 "C12": "All abstract states and name relations.",
 "C13": "All abstract states and name relations.",
}.items():
    checks[k] = (A, n + " Where the abstraction loses a case it reports NOT-DECIDED and claims nothing for it.")
for k, n in {
 "C17": "Put is analysed from every abstract index state and for every way the document's tokens relate to a tracked token; inductive over puts.",
 "C18": "The linear engine over an index of any size and a query of any length with one or two tracked documents.",
 "C19": "The hits engine over an index of any size and a query of any length with one or two tracked documents.",
 "C20": "The comparison, length and swap of results over all orders; the hits engine with two tracked documents.",
 "C21": "Effect analysis of the engines (order of maps, goroutines, package variables, unknown calls; an engine that has one is interpreted and its outcomes compared); the repository's search over all states and orders.",
 "C24": "Constructors, accessors, Put and Document with arbitrary field values; the documents in the engines' results.",
 "C22": "Both no-op engines over a symbolic index of any size with a tracked pair of documents.",
 "C23": "Put and Search with an opaque analyzer and engine: what they are passed and what is done with what they return.",
 "C25": "The predicate given to strings.FieldsFunc is analysed over every class of characters; FieldsFunc itself is trusted.",
 "C26": "Each filter over token lists of any length with tracked tokens; strings.ToLower and the external stemmer are trusted.",
 "C27": "The pipeline over filter lists of any length with tracked filters.",
 "C29": "The encoder and decoder of results against the protocol of easyjson's writer and lexer (trusted), with declared keys in any order among any number of unknown ones; a null in place of a declared value is not modelled.",
 "C30": "Every pattern of vowels and other letters up to ten, with any letters of any number of bytes; longer words are not decided.",
 "C32": "The analyses of C07, C09, C13, C17, C20, C22-C27, C29, C30 repeated for crashes only, plus new and empty indexes and the remaining public functions; the public functions not reached are listed in the evidence.",
 "C31": "Put with an analyzer that panics, from every abstract index state.",
}.items():
    checks[k] = (A.replace("operation", "function").replace("how names relate", "how its inputs relate"), n + " Where the abstraction loses a case it reports NOT-DECIDED and claims nothing for it.")
exec(open(os.path.join(here, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "manifest_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
 "C33": "the linguistic quality of stemming is a relation between runtime string values computed by an external library; no rule on this repository's source decides it",
 "C34": "asymptotic running time quantifies over runtime quantities no sound static argument in reach can bound",
 "C35": "escaping is string-value arithmetic inside the external easyjson runtime, outside the repository's source",
}
na = []
for p in props:
    if p["id"] not in checks:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": k, "quick_cmd": f"bash check.sh {k}", "thorough_cmd": f"bash check.sh {k}",
                 "technique": t, "level": "other", "level_note": n} for k, (t, n) in sorted(checks.items())],
     "not_applicable": na,
     "notes": "Static analysis only: /verif/checker loads /repo's current source with go/packages, builds SSA and decides each property from it; nothing of /repo is executed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
