#!/usr/bin/env python3
"""Writes MANIFEST.json from what run.py can check."""
import importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("run", V + "/run.py")
run = importlib.util.module_from_spec(spec)
spec.loader.exec_module(run)
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
DERIVED = ("generated grammars x generated inputs through the real derive macro and runtime, "
           "compared with a reference interpreter of the grammar")
META = "generated grammar texts against the syntax tree they were printed from"
TECH = {
    "C06": DERIVED + "; model-based histories of the public failure tracker",
    "C03": "differential: check / parse / prefix / full entry points on generated grammars and inputs, and the reference interpreter",
    "C07": DERIVED + "; generated syntax trees and replacements against a model of substitution",
    "C09": "round trip: generated syntax tree -> randomly laid out text -> parser -> same tree",
    "C10": "generated spellings of literals and numbers against the characters and numbers they denote",
    "C11": "fuzzing of grammar texts (structured mutation, token soup, bytes) for totality and determinism",
    "C12": "generated texts, offsets and operation sequences against a naive position/span model",
    "C13": "generated texts and spans against a model of the snippet display",
    "C15": "every built-in against independent Unicode tables over every scalar value, and generated uses",
    "C16": "metamorphic: one generated grammar, differently written or optioned, gives the same parser; and the same text the same code",
    "C19": "generated trees of importing files against a model of path resolution",
    "C20": "generated grammars: the emitted enumeration against a model of it",
    "C21": "generated grammars with one planted fault (must be refused) and without (must be accepted)",
    "C22": "generated grammars written out as hand-composed template types, and generated inputs and stacks on composed nodes, compared with a reference interpreter and naive models",
}
NOTE = ("Generated-input search: it found no difference on the cases of the run (counts in the evidence), which is no proof. "
        "Trusted: the reference model in /verif/h and the harness; grammars are kept small (a few rules, short inputs).")
checks = [{
    "property": p,
    "quick_cmd": f"python3 run.py {p}",
    "thorough_cmd": f"python3 run.py {p} --thorough",
    "evidence_file": f"evidence/{p}.json",
    "technique": "property-based testing: " + TECH.get(p, DERIVED),
    "level": "exploration",
    "level_note": NOTE,
} for p in props if p in run.STAGES]
na = [{"property": p, "reason": "Its check is being built."} for p in props if p not in run.STAGES]
with open(V + "/MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the checks use public interfaces only. See DESIGN.md."}, f, indent=1)
    f.write("\n")
