#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(f"{d}/properties.jsonl")]
extra = {
    "C03": "also an exact trader-profit monitor (group cash flow, round trips, splits)",
    "C30": "the SDK's quote functions are called with the account bytes the program sees, right before each swap",
    "C32": "crash oracle: debug assertions, overflow checks and panic capture in every executed instruction, over garbage and hostile input",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash run.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}",
        "technique": "runtime monitoring: the compiled program runs whole random and hostile transaction histories in an instrumented ledger; an exact reference model and state monitors judge every transaction online" + ("; " + extra[i] if i in extra else ""),
        "level": "exploration",
        "level_note": "Holds on every transaction of the seeded histories explored (counts in the evidence file); no claim beyond them. Trusts the ledger simulator, the stand-ins for the token, metadata, locker and AMM programs, and the reference model written from the property, and that native code behaves as the on-chain build.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the program is observed at its entry point, its system calls and its accounts. known-findings.json lists repaired defects.",
}
json.dump(m, open(f"{d}/MANIFEST.json", "w"), indent=1)
