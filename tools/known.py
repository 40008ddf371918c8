"""known.py PROPERTY FAILS.json "what" [id-substring ...]  - appends one known finding (used by hand, never by a check)"""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl")
prop, path, what, *sub = sys.argv[1:]
fs = [f for f in json.load(open(path)) if not sub or any(s in f["id"] for s in sub)]
m = sorted({f"{f['id']}#{f['step']}" for f in fs})
cl = sorted({c for f in fs for c in f["clauses"]})
open(R, "a").write(json.dumps({"status": "known", "property": prop, "what": what, "clauses": cl, "match": m}) + "\n")
print(len(m), cl)
