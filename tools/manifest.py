#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {
    "C18": "TLC explores the interleavings of the modelled calls exhaustively (Conc.tla); histories generated from the specification run on the real code with the race detector and without, and TLC compares what each thread observed with what the specification allows. Schedules of the real code are sampled.",
    "C21": "Complete: TLC compares every entry of every list with the standard list.",
    "C06": "TLC explores the rejection-sampling loop with a faulty random source exhaustively on a small field (Rng.tla); the real code runs under scripted random sources (all failure positions, chunked reads, changed bytes) and TLC checks each observed call.",
    "C16": "As C06, for the entropy of phrases.",
}
checks = [{
    "property": i,
    "quick_cmd": "python3 check.py %s quick" % i,
    "thorough_cmd": "python3 check.py %s thorough" % i,
    "technique": "TLA+ specification checked with TLC, bound to the code by replaying TLC-generated histories and validating the recorded traces with TLC",
    "level": "model_checking",
    "level_note": NOTE.get(i, "The property is checked exhaustively on a small instance of the specification and on the real instance along generated behaviours; histories generated from the specification run on the real code and TLC checks every observed call against it. Inputs of the real code are the generated ones (boundary classes plus seeded random), not all."),
} for i in ids]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
