#!/usr/bin/env python3
"""Writes MANIFEST.json for the claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C29": "every-interleaving termination and signal accounting need a concurrent program logic (permissions, channel protocols, fairness); no deductive verifier for goroutines is installed and govc's semantics is sequential per goroutine. The sequential parts (ranges, visits, one report per item, channels closed) are under C03, C06, C14, C17, C22.",
    "C30": "a statistical property of trained vectors on natural text; it has no exact postcondition on the training functions, so no contract can state or decide it.",
    "C03": "not decided: the filters and BatchWords need contracts for a variadic list of caller-supplied closures (cpsutil.FilterFn) applied in a data-dependent order inside a scanner callback; the functype contract for them was not finished, so nothing is claimed. Dictionary lookups (C01) and the word stream (C02) they rest on are proved.",
    "C10": "not decided: the round trip needs a theory relating %f formatting to ParseFloat (digits of a rounded decimal), which no installed solver has; the two halves are proved separately as C08 (exact text written) and C09 (exact text read).",
    "C20": "not decided: the heap-shaped tree build (sorted node list, two-pointer merge) needs a forest invariant with optimality by exchange; that induction was not finished. Paths read from the tree are under contract in C19.",
    "C28": "not decided: unknown names are rejected inside functions proved for C16 (relations), C04 (count types) and C26 (vector kinds), but the name switches of the remaining constructors are not all under contract.",
}
CLAIMED = open(os.path.join(V, "tools", "claimed.txt")).read().split()
NOTES = {}
p = os.path.join(V, "tools", "level_notes.json")
if os.path.exists(p):
    NOTES = json.load(open(p))
checks, na = [], []
for pr in props:
    i = pr["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="python3 tools/check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="contract-based deductive verification: contracts on the real functions, verification conditions generated from go/ssa of the working tree, discharged by z3/cvc5",
                           level="proof",
                           level_note=NOTES.get(i, "All obligations of the contracted functions are discharged for all inputs and iterations; floats as reals, ints as mathematical integers, library calls by trusted models (listed in the evidence).")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "contracts not finished yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="One check per property: tools/check.py proves the contracts in contracts/*.vc against /repo's working tree with govc/ and, when an obligation fails, searches for a failing input on the real code with harness/.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
