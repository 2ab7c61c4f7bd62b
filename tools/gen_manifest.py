#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
HIST = "stateful property-based testing: generated ledgers and transaction histories on the real program, compared step by step with an independent reference model and a history monitor, with shrinking"
TECH = {
    "C12": "stateful property-based testing with generated hostile owner programs (fault injection in the undelegation callback), reference model and invariants, with shrinking",
    "C22": "metamorphic property-based testing: frame, presence and commutation relations between generated transactions, plus model-based histories",
    "C23": "differential property-based testing: the same generated commit directly and from a buffer, plus model-based histories",
    "C24": "metamorphic property-based testing: generated bundles against the same steps run one by one, plus model-based histories",
    "C25": "metamorphic property-based testing: generated steps re-run with lamports sent to the derived addresses before, plus model-based histories with donations",
    "C26": "differential property-based testing: generated inputs to the builders and address functions against independent references, built instructions executed and compared with the model",
    "C27": "round-trip and differential property-based testing of the codecs on generated and corrupted encodings against an independent codec",
    "C28": "fuzzing of raw instruction data and account lists over generated ledgers against an independent decoder and reference model",
}
NOTE = ("Search over generated inputs, no proof: a violation that needs a rarer coincidence than the case counts reach is missed. "
        "Executes the program's processor natively in the Solana runtime crates (no SBF VM, no compute or heap limits); transaction-level rules are "
        "reproduced by the harness; the oracle is an independent model written from the specification in properties.jsonl (harness/src/model.rs).")
checks = [dict(property=p["id"], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
               technique=TECH.get(p["id"], HIST), level="exploration", level_note=NOTE) for p in props]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks: the checks use the crate's public entry point, builders, address functions and codecs. Known findings: known-findings.txt. Replay: ./run.sh <property> quick --replay <file>.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
