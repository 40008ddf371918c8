#!/usr/bin/env python3
"""Check runner:  run.py PROPERTY [--tier quick|thorough]

 1. TLC checks the design-level models of the property exhaustively (MC configs)
 2. TLC generates the scenarios from the specification
 3. the scenarios are replayed on the code in $VP_REPO (default /repo) by execute.py workers
 4. TLC validates the recorded trace against the specification (Trace.tla)
 5. verdict, KNOWN-FINDING / VIOLATION lines, evidence file
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
PY = os.environ.get("VP_PYTHON", "/opt/venv/bin/python")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = int(os.environ.get("VP_NPROC", "8"))


def tlc_cmd():
    import glob
    jars = [JAR] + glob.glob("/opt/veriftools/tla/*ommunity*.jar")
    return ["java", "-XX:+UseParallelGC", "-Xmx3g", "-Xss64m", "-cp", ":".join(jars), "tlc2.TLC"]


def run_tlc(module, cfg, work, env=None, workers=1, extra=(), timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    md = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = tlc_cmd() + ["-metadir", md, "-noGenerateSpecTE", "-workers", str(workers),
                       "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    p.stdout = "\n".join(x for x in p.stdout.splitlines() if not x.startswith(("Parsing file", "Semantic processing")))
    return p


class Machinery(Exception):
    pass


def mc(m, work, tier, seed):
    t0 = time.time()
    p = run_tlc(m["module"], m["cfg"], work, workers=m.get("workers", 2),
                env={"TIER": tier, "SEED": str(seed), **m.get("env", {})}, extra=m.get("extra", ()))
    out = p.stdout
    g = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct", out)
    if p.returncode != 0 or "No error has been found" not in out and "simulat" not in " ".join(m.get("extra", ())):
        raise Machinery(f"model {m['module']}/{m['cfg']} failed:\n" + out[-3000:] + p.stderr[-500:])
    gen, dis = (int(x.replace(",", "")) for x in g[-1]) if g else (0, 0)
    # a model whose actions are never taken proves nothing
    never = re.findall(r"^\s*<(\w+) line .*>: 0:0$", out, re.M)
    return {"model": m["module"] + "/" + m["cfg"], "generated": gen, "distinct": dis,
            "wall_s": round(time.time() - t0, 2), "never_taken": never,
            "what": m.get("what", "")}


def gen(g, work, tier, seed, i):
    out = os.path.join(work, f"scen{i}.ndjson")
    extra = list(g.get("extra", ()))
    if "walks" in g:         # random walks of a state machine
        extra += ["-simulate", f"num={g['walks'][tier]}", "-depth", "1000", "-seed", str(seed)]
    p = run_tlc(g["module"], g.get("cfg", "Gen.cfg"), work, extra=extra,
                env={"OUT": out, "TIER": tier, "SEED": str(seed), **g.get("env", {})})
    if p.returncode != 0 or not os.path.exists(out) and "@SC " not in p.stdout:
        raise Machinery(f"generator {g['module']} failed:\n" + p.stdout[-3000:] + p.stderr[-500:])
    if os.path.exists(out + ".pool"):
        shutil.copy(out + ".pool", os.path.join(work, "pool.json"))
    if os.path.exists(out):
        return [ln for ln in open(out).read().split("\n") if ln]
    lines = []
    for ln in p.stdout.splitlines():
        if ln.startswith('"@SC '):
            lines.append(json.loads(ln)[4:])
    return lines


def cost(sc):
    c = 1.0
    for st in sc["steps"]:
        m = st.get("mode", "eager")
        if "op" not in st:
            c += 1
            continue
        w = 6 if m in ("jit", "jitvmap", "eqxjit") else 4 if m == "vmap" else 1
        if st["op"] in ("repd", "apply"):
            w *= 4
        c += w
    return c


def replay_and_validate(scens, work, nproc, trace="Trace", joint=False):
    chunks = [[] for _ in range(max(1, min(nproc, len(scens))))]
    load = [0.0] * len(chunks)
    for sc in sorted(scens, key=lambda s: (-cost(s), s["id"])):
        j = load.index(min(load))
        chunks[j].append(sc)
        load[j] += cost(sc)

    def one(j):
        src = os.path.join(work, f"in{j}.ndjson")
        dst = os.path.join(work, f"trace{j}.ndjson")
        with open(src, "w") as f:
            for sc in sorted(chunks[j], key=lambda s: (s.get("prec", 64), s["id"])):
                f.write(json.dumps(sc) + "\n")
        env = dict(os.environ, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1",
                   XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
        p = subprocess.run([PY, os.path.join(HERE, "execute.py"), src, dst], env=env, cwd=work,
                           capture_output=True, text=True)
        if p.returncode != 0:
            raise Machinery("executor failed:\n" + p.stdout[-1500:] + p.stderr[-3000:])
        return None if joint else validate(dst)

    def validate(dst):
        t = run_tlc(trace, trace + ".cfg", work, env={"TRACE": dst})
        done = re.search(r'"@DONE (\d+) (\d+)"', t.stdout)
        fails = [json.loads(json.loads(ln)[6:]) for ln in t.stdout.splitlines() if ln.startswith('"@FAIL ')]
        if t.returncode != 0 or not done or "No error has been found" not in t.stdout:
            raise Machinery("trace validation did not finish:\n" + t.stdout[-3500:])
        states = int(re.findall(r"(\d+) states generated", t.stdout)[-1])
        with open(dst) as f:
            traces = [json.loads(x) for x in f]
        return fails, int(done[2]), states, traces

    with ThreadPoolExecutor(len(chunks)) as ex:
        res = list(ex.map(one, range(len(chunks))))
    if joint:        # every session against one table
        dst = os.path.join(work, "trace.ndjson")
        with open(dst, "w") as f:
            for j in range(len(chunks)):
                f.write(open(os.path.join(work, f"trace{j}.ndjson")).read())
        res = [validate(dst)]
    fails = [f for r in res for f in r[0]]
    return fails, sum(r[1] for r in res), sum(r[2] for r in res), [t for r in res for t in r[3]]


def sig(f):
    return f"{f['id']}#{f['step']}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    from props import PROPS
    P = PROPS[a.prop]
    t0 = time.time()
    work = a.keep or tempfile.mkdtemp(prefix=f"vp-{a.prop}-")
    os.makedirs(work, exist_ok=True)
    timing = {}
    try:
        with ThreadPoolExecutor(4) as ex:
            # the design models are independent of the code: they run beside the replay
            mcs = [ex.submit(mc, m, work, a.tier, seed) for m in P.get("mc", [])
                   if a.tier == "thorough" or not m.get("thorough_only")]
            gens = [ex.submit(gen, g, work, a.tier, seed, i) for i, g in enumerate(P["gen"])
                    if a.tier == "thorough" or not g.get("thorough_only")]
            scens = [json.loads(x) for g in gens for x in g.result()]
            timing["gen_s"] = round(time.time() - t0, 1)
            if a.only:
                scens = [s for s in scens if re.search(a.only, s["id"])]
            ids = [s["id"] for s in scens]
            if len(set(ids)) != len(ids):
                dup = sorted({i for i in ids if ids.count(i) > 1})
                raise Machinery(f"duplicate scenario ids {dup[:5]}")
            t1 = time.time()
            fails, nsteps, nstates, traces = replay_and_validate(scens, work, NPROC, P.get("trace", "Trace"), P.get("joint", False))
            timing["replay_validate_s"] = round(time.time() - t1, 1)
            models = [m.result() for m in mcs]
    except Machinery as e:
        print(f"MACHINERY-ERROR property={a.prop}: {e}", file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)

    kf = [json.loads(x) for x in open(os.path.join(ROOT, "known-findings.jsonl")) if x.strip()]
    known = {}
    for k in kf:
        if k.get("status") == "known" and k["property"] == a.prop:
            for s in k["match"]:
                known[s] = k
    bytr = {t["id"]: t for t in traces}
    viol, seen = [], {}
    for f in fails:
        k = known.get(sig(f))
        if k is not None and set(f["clauses"]) <= set(k["clauses"]):
            seen.setdefault(k["what"], []).append(sig(f))
        else:
            viol.append(f)
    for what, ss in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={a.prop} {what} [{len(ss)} recorded steps]")
    rdir = os.path.join(ROOT, "evidence", "replay")
    reported = []
    if os.environ.get("VP_ALL"):
        json.dump([dict(f, obs=str({k: bytr[f["id"]]["obs"][f["step"] - 1].get(k) for k in ("exc", "msg", "cls", "shape")}), st=bytr[f["id"]]["steps"][f["step"] - 1]) for f in viol], open(os.environ["VP_ALL"], "w"))
    for f in viol[:12]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{a.prop}-{re.sub('[^A-Za-z0-9_.-]', '_', f['id'])}-{f['step']}.json")
        t = bytr[f["id"]]
        i = f["step"] - 1
        json.dump({"failure": f, "scenario": {k: v for k, v in t.items() if k not in ("obs",)},
                   "step": t["steps"][i], "observed": t["obs"][i]}, open(path, "w"))
        o = t["obs"][i]
        why = f"{o.get('exc')}: {o.get('msg')}" if o.get("ok") == 0 else ""
        print(f"  {f['id']} step {f['step']} op={f['op']} clauses={f['clauses']} {why}"[:300])
        print(f"VIOLATION property={a.prop} replay={path}")
        reported.append({"scenario": f["id"], "step": f["step"], "clauses": f["clauses"]})
    ops = {}
    for t in traces:
        for st in t["steps"]:
            k = st["op"] if "op" in st else st["e"]
            ops[k] = ops.get(k, 0) + 1
    elems = sum(len(o.get("den") or o.get("comps") or o.get("val") or [1]) for t in traces for o in t["obs"])
    distinct = {(st.get("op"), o.get("cls"), str(e)) for t in traces for st, o in zip(t["steps"], t["obs"])
                for e in (o.get("comps") or o.get("val") or [o.get("exc")])}
    samples = []
    for t in traces[:: max(1, len(traces) // 3)][:3]:
        samples.append(json.dumps({"id": t["id"], "first_step": t["steps"][0],
                                   "last_step": t["steps"][-1], "last_observation": t["obs"][-1]})[:1500])
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": P["level"],
          "coverage": {"states": sum(m["distinct"] for m in models) + nstates,
                       "transitions": sum(m["generated"] for m in models) + nsteps,
                       "traces_validated_against_impl": len(traces),
                       "evaluations": nsteps, "distinct_nontrivial": elems,
                       "rule": "one evaluation = one recorded API call judged by TLC; distinct_nontrivial counts "
                               "the array elements whose abstract value was compared exactly",
                       "calls_per_operation": ops, "models": models, "timing": timing,
                       "known_findings_seen": {k: len(v) for k, v in seen.items()},
                       "samples": samples},
          "wall_s": round(time.time() - t0, 2),
          "violating_steps": reported,
          "assumptions": P.get("assumptions", []) + [
              "floating-point results are compared after snapping to the simplest rational within 2e-10 (relative; "
              "float32 scenarios 3e-5)", "JAX on CPU"],
          "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w"), indent=1)
    print(f"{a.prop}: {len(traces)} traces, {nsteps} calls, {elems} elements, "
          f"{sum(m['distinct'] for m in models)} model states, {len(viol)} violations, "
          f"{len(fails) - len(viol)} known, {ev['wall_s']} s {timing}")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
