"""Writes MANIFEST.json: every property with a specs/cNN.py is claimed."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "default": "Deductive: the real function bodies are executed symbolically on every run for arbitrary dimensions, ranks and values "
               "(tensor order enumerated), callers against callee contracts where stated; obligations are discharged by a term normaliser and z3. "
               "Trusted: floats as reals, the NumPy/Python semantics in pyver/, and the contracts of external functions listed in the evidence. "
               "Goals outside the verifier's reach are reported as bounded, never as proved.",
}
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "specs", i.lower() + ".py")) and i not in NA:
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": "contract-based deductive verification of the real Python source (symbolic execution + term normaliser + z3), "
                                    "failing obligations replayed as run-time contracts on the real code",
                       "level": "proof", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts for this property are not written yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt selfcheck.py --quick", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
