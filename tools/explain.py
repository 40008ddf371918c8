"""explain.py REPLAY.json|last:N - prints a recorded violation: the steps that lead to it, the specification's
value and the observed one"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import run
r = json.load(open(sys.argv[1]))
sc, n = r["scenario"], r["failure"]["step"]
need, out = set(r["step"].get("a", ())), []
for st in reversed(sc["steps"][: n - 1]):
    if st.get("d") in need:
        out.append(st)
        need = (need - {st["d"]}) | set(st.get("a", ()))
print("scenario", sc["id"], {k: v for k, v in sc.items() if k not in ("steps", "id")})
for st in out[::-1] + [r["step"]]:
    print("  ", json.dumps(st)[:600])
with tempfile.TemporaryDirectory() as w:
    f = os.path.join(w, "t.ndjson")
    open(f, "w").write(json.dumps(sc) + "\n")
    p = run.run_tlc("Explain", "Gen.cfg", w, env={"TRACE": f, "STEP": str(n)})
    v = [x for x in p.stdout.splitlines() if x.startswith('"')]
    print("expected", json.loads(v[0]) if v else p.stdout[-800:])
print("observed", json.dumps(r["observed"])[:1500])
print("violated", r["failure"]["clauses"])
