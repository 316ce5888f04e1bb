#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
SEQ = "explicit-state model checking: every operation sequence up to a depth is executed on the real code in lockstep with a reference model"
CONC = "stateless model checking: every interleaving up to a preemption bound of the real code under a controlled scheduler (mcstd), judged by the outcomes of all sequential orders or by the calls recorded at the environment"
ENUM = "explicit-state model checking of a bounded space of inputs and configurations: every state of the space is enumerated, executed on the real code and compared with a reference model"
CONCE = "stateless model checking: every order in which the consumers can finish is forced on the real code"
PROG = "stateless model checking of the whole program: every schedule of its stream against the reading of its archive is forced by stand-ins of its dependencies, in a process of its own, and the answers of its server are compared with a reference model"
TECH = {
    "C01": SEQ, "C02": SEQ, "C03": SEQ, "C04": SEQ, "C05": SEQ, "C06": SEQ, "C08": SEQ,
    "C07": CONC, "T07": CONC, "R01": SEQ, "R02": CONC, "R03": SEQ, "S01": ENUM, "D01": CONC, "D02": CONC, "D03": CONC, "D04": CONC, "C14": CONC,
    "C09": ENUM, "C10": ENUM, "C11": ENUM, "C12": ENUM, "C13": ENUM,
    "E01": ENUM, "E02": ENUM, "E03": CONCE, "E04": PROG,
    "T01": ENUM, "T02": ENUM, "T03": SEQ, "T04": SEQ, "T05": SEQ, "T06": SEQ, "T08": ENUM,
}
NOTE = "bounded: see the bounds per property in DESIGN.md and the counts in the evidence file"
EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} quick",
            "thorough_cmd": f"bin/check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i],
            "level": "model_checking",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": "the check is not finished yet"})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
