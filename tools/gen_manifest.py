#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
PBT = "property-based testing: "
TECH = {
 "C01": PBT + "exact-value oracle (repeated squaring), enumerated edges and random operands",
 "C02": PBT + "Bezout identity and reference gcd over enumerated and random pairs",
 "C03": PBT + "validity predicate and solvability oracle over enumerated and random pairs",
 "C04": PBT + "validity predicate and solvability oracle over structured triples",
 "C05": PBT + "reference gcd and divisor trial over enumerated and random pairs",
 "C06": PBT + "validity predicate over generated systems of congruences",
 "C07": PBT + "product-tree reference over enumerated and random arguments",
 "C08": PBT + "bit-doubling reference and sign law over enumerated and random indices",
 "C09": PBT + "differential test of two algorithms against a third",
 "C10": PBT + "sieve and array-recurrence reference over boundary-biased arguments",
 "C11": PBT + "sieve, recurrence and published-value reference",
 "C12": PBT + "sieve and published-value reference",
 "C13": PBT + "reference rendering over generated errors",
 "C14": "differential fuzzing: shipped parser against a parser derived from the grammar file, grammar-based and mutated texts",
 "C15": PBT + "model tree rendered with minimal and redundant brackets must parse back to itself",
 "C16": PBT + "round trip of generated literals against their known value",
 "C17": PBT + "model call shapes rendered to text must parse to the model",
 "C18": "metamorphic property-based testing: layout and comment insertion leaves the parse unchanged",
 "C19": PBT + "generated texts with construct offsets known by construction",
 "C20": PBT + "print and reparse round trip over generated operator trees",
 "C21": PBT + "reference Wolfram renderer over generated expressions",
 "C22": PBT + "reference TeX renderer and operand-order invariant over generated expressions",
 "C23": PBT + "exact big-integer reference over generated arithmetic in every notation",
 "C24": "fuzzing with generated calls of every name, arity and argument type; no-panic oracle",
 "C25": "stateful (model-based) property-based testing of session histories",
 "C26": PBT + "reference functions over generated strings and expressions",
 "C27": PBT + "generated files and injected file faults against a direct parse",
 "C28": "stateful (model-based) property-based testing of playground histories, single and multi-threaded",
 "C29": "grammar-based and mutational fuzzing with a no-panic and determinism oracle",
 "C30": PBT + "operand-sequence invariant over generated operator expressions",
 "C31": PBT + "enumerated and random operator chains against grouping by cutting at the weakest operator",
 "C32": PBT + "generated statement sequences against the list of expressions they were written from",
 "C33": PBT + "every identifier character and generated names in every place against the name itself",
 "C34": PBT + "broken texts and injected file faults against the low-level parser's report and the operating system's message",
 "C35": PBT + "metamorphic relations over expressions with other positions and rebuilt leaves, and laws of equality and order",
}
ALG = "Bounded search over generated inputs, not proof: sizes and counts are in the evidence. Trusts the num crate's basic BigInt operations (+, -, *, %, comparison), which the oracle shares with the code, and rustc."
AST = "Bounded search over generated inputs, not proof. sm-ast, sm-parser and sm-playground are compiled from /repo's sources on top of vendored pest 2.8.3 and stand-ins for bigdecimal, text-utils and wolfram_wxf (not available offline), which are trusted."
BUILT = {f"C{i:02}" for i in range(1, 36)}
na = []
checks = []
for i in ids:
    if i in BUILT:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "exploration",
            "level_note": ALG if i < "C13" else AST})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API. Known and fixed findings: KNOWN_FINDINGS.txt. Replay a violation with ./check.sh --replay FILE."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
