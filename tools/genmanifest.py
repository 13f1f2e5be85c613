#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harness files that exist."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {
 "C35": "Termination with probability 1 and the shape of a distribution are statements about measures over unboundedly many draws (rejection loops around logarithms of draws), not about all values within a bound: no assertion over finitely many symbolic draws states them. The bounded part of the sampler is C34.",
 "C36": "Reaching a good fit is a statistical outcome of long runs on a chosen data set, with no assertion that holds for every input; what it depends on is decided by C04, C07-C12, C14, C15, C20 and C21.",
}
REAL = {"C08","C10","C11","C12","C14","C15","C17","C20"}
tech = "symbolic execution of go/ssa of the real code; claims decided by normal forms and z3 over all values within bounds; counterexamples replayed natively"
checks, na = [], []
for p in props:
    f = f"{here}/harness/{p['id'].lower()}.go"
    if p["id"] in NA or not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check yet")})
        continue
    src = open(f).read()
    bounds = []
    for m in re.finditer(r"((?:^//.*\n)+)func (H_C\d\d_\w+)", src, re.M):
        doc = [l[2:].strip() for l in m.group(1).splitlines() if not l.startswith("//v:")]
        t = " (thorough only)" if re.search(r"//v:.*tier=thorough", m.group(1)) else ""
        bounds.append(f"{m.group(2)[6:]}{t}: {' '.join(doc)}")
    note = "Every value within these bounds, on the current source: " + " ".join(bounds)
    if p["id"] in REAL:
        note += " Formulas are compared over exact real arithmetic with exp, log and sqrt as functions with their algebraic laws (rounding is outside); structure, shapes, errors, aliasing and panics over Go's own semantics."
    else:
        note += " Floating-point operations are exact where the claim is bit-for-bit, and otherwise compared up to rounding."
    note += " Trusted: the interpreter's account of go/ssa and of the modelled library functions (each path's witness and every counterexample is replayed on the compiled code), z3."
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the real code is read from /repo's working tree and compiled through overlays. See DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
