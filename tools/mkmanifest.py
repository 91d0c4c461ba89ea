#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = {
    "C21": "Digests are concrete stand-ins on symbolic inputs (equality decided by the solver); the rsa crates themselves run on them as compiled, for three fixed keys, and the signature is checked with the public key.",
    "C02": "SHA-1's compression function is abstracted as injective; the harness's own HMAC goes through the same abstraction, so equality of digests means equality of all hashed bytes.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/src/%s.rs" % (H, i.lower())):
        checks.append(dict(
            property=i,
            quick_cmd="./check %s --tier quick" % i,
            thorough_cmd="./check %s --tier thorough" % i,
            technique="symbolic execution of the compiled LLVM IR, assertions decided by Z3, counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value of the symbolic inputs within the bounds each entry states (text shapes, lengths, list sizes, call histories; see evidence). " + NOTE.get(i, "") +
                       " Trusted: rustc's lowering, the executor's IR semantics (cross-checked by replaying sampled paths natively on every run), Z3.",
        ))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is driven through the public API. See DESIGN.md.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
