#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
N = []   # not applicable
LEVEL = ("Bounded symbolic execution of the real functions' SSA with every input in the bounds symbolic; "
         "each assertion is decided by an SMT solver for all values on every explored path; no claim beyond the bounds "
         "in the evidence file. Trusts the engine (its encoding is differentially validated against the compiled code on every run), "
         "z3/cvc5, and the library models named in the evidence. ")
def prop(id, title, statement, over, text, why, files, mech, note="", state=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)
    if na: N.append((id, na))
    else: d["_note"] = note

exec(open("properties.py").read())

with open("properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if k != "_note"}) + "\n")
na = dict(N)
m = dict(version=1, setup_cmd="./mk.sh",
  checks=[dict(property=d["id"], quick_cmd=f"./check.sh {d['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {d['id']}",
      technique="symbolic execution of the Go SSA with SMT solving (z3, cvc5)", level="model_checking",
      level_note=LEVEL + d["_note"]) for d in P if d["id"] not in na],
  not_applicable=[dict(property=k, reason=v) for k, v in N],
  notes="One engine (engine/), one harness package per property (harness/cNN); see DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
