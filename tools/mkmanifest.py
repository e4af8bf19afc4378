#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the check modules present."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
na = os.path.join(HERE, "tools", "not_applicable.json")
if os.path.exists(na):
    NA = json.load(open(na))
checks, nots = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "vt", "props", i.lower() + ".py")):
        mod = importlib.import_module("vt.props." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the current source (AST-lifted real functions over polynomial terms), SMT (z3) decides every assertion, counterexamples replayed on the real package",
            "level": "model_checking",
            "level_note": "bounded; quick: " + mod.BOUNDS["quick"] + ". Outside: " + mod.OUTSIDE})
    else:
        nots.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import z3, numpy\"", "checks": checks, "not_applicable": nots},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in nots])
