"""fixed.py PROPERTY COMMIT "what failed" - records a repaired defect"""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl")
prop, commit, what = sys.argv[1:]
open(R, "a").write(json.dumps({"status": "fixed", "property": prop, "commit": commit, "what": what,
                               "line": f"fixed: property={prop} {commit} {what}"}) + "\n")
