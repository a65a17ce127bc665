#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "lockstep reference-model monitor over random histories",
    "C02": "lockstep reference-model monitor with counterfactual runs without removals",
    "C03": "lockstep reference-model monitor with counterfactual runs without redirects",
    "C04": "symmetry monitor and lockstep reference model over random declarations",
    "C05": "panic oracle (reference model) on bidirectional conflicts",
    "C06": "index census at the client boundary, histories and multi-threaded stress",
    "C07": "panic oracle (reference model) on misuse, debug and release builds",
    "C08": "cross-comparison monitor of all views after every step",
    "C09": "lockstep reference model across serialization round trips, counterfactual rebuild",
    "C10": "lockstep reference model across context switches, counterfactual rebuild",
    "C11": "lockstep reference model across merges, counterfactual plain insertion",
    "C12": "panic oracle (reference model) on link type declarations",
    "C13": "recorded check calls compared with the model's change set",
    "C14": "reflection monitor against generated declarations",
    "C15": "closure log and live-payload census against the model",
    "C16": "lockstep reference model with counterfactual run on a freshly built graph",
    "C17": "digests of repeated runs, in one process and across processes",
    "C18": "digests of the same histories across four build configurations",
    "C19": "typed macros against untyped meaning in lockstep with the model",
    "C20": "isolation monitor over interleaved graphs and transactions, counterfactual runs in isolation",
    "C21": "panic oracle on the self check after every step, computed from the graph's contents",
    "C22": "recorded verdicts of the macros on random declarations with and without one mistake",
}
NOTE = ("Held on every sampled execution (tens of thousands of histories per quick run, many more in thorough), over 19 curated and "
        "several seed dependent node declarations; not exhaustive. Trusts the reference model's reading of the documentation and the harness.")
NOTES = {"C22": "Held on every sampled declaration (about 400 wrong ones per quick run, thousands in thorough), each compiled by the real macros; not exhaustive. "
                "Trusts the generator's reading of the documentation."}
checks = [{
    "property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
    "evidence_file": f"evidence/{p}.json", "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": NOTES.get(p, NOTE),
} for p, t in T.items()]
m = {"version": 1, "setup_cmd": "python3 check.py build quick", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every monitor works at the public interface. check.py replay FILE runs a recorded violation again."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
