#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AE, EN, IN, ST, CO = "aerokit/aero/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/", "aerokit/common/"
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), technique=None, note=None, na=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if state:
        anchors["state"] = [{"name": a, "meaning": b} for a, b in state]
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
               "why_tests_cant": why, "anchors": anchors}, technique, note, na))


VN = "value-numbering abstract interpretation of the source; gated value graphs compared with the governing equations"
VNN = ("Static: no code of the repository is run. The abstract interpreter builds one gated value graph per result for all inputs; an obligation is "
       "proved when both sides get the same value number, otherwise the graphs are told apart by evaluating them (50 digits) at points of the stated "
       "domain, directed into every gate. Equality established that way is identity testing, not a proof. Trusted: the interpreter's numpy model and "
       "real arithmetic in place of floating point.")
ROOT = " Roots found by iteration are decided as: the equation solved has the wanted root, and the start lies on the wanted branch; convergence itself is not decided."

exec(open(os.path.join(HERE, "tools", "table.py"), encoding="utf-8").read())


def main():
    P.sort(key=lambda p: p[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p, _, _, _ in P:
            fh.write(json.dumps(p) + "\n")
    man = {"version": 1,
           "setup_cmd": "python3-vt -c \"import mpmath, numpy, sympy\"",
           "checks": [], "not_applicable": [],
           "notes": "Every check reads /repo's current source, never runs it. DESIGN.md describes the analyser; known_findings.txt lists recorded and repaired defects."}
    for p, tech, note, na in P:
        if na:
            man["not_applicable"].append({"property": p["id"], "reason": na})
        else:
            man["checks"].append({"property": p["id"], "quick_cmd": "./run.py %s quick" % p["id"], "thorough_cmd": "./run.py %s thorough" % p["id"],
                                  "technique": tech or VN, "level": "other", "level_note": note or VNN})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
