"""Writes /verif/MANIFEST.json from harness/props.py."""
import json
import os
import sys

R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "harness"))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(R, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 harness/setup.py",
    "hooks": {"guard": "COORDINAX_VERIF", "enable": "no hooks are needed: the public API exposes the abstract state",
              "source_commits": []},
    "checks": [
        {"property": k, "quick_cmd": f"python3 harness/run.py {k} --tier quick",
         "thorough_cmd": f"python3 harness/run.py {k} --tier thorough",
         "technique": "explicit TLA+ specification: TLC design models, TLC-generated scenarios replayed on the code, "
                      "recorded traces validated by TLC",
         "level": PROPS[k]["level"], "level_note": PROPS[k]["note"]}
        for k in ids if k in PROPS],
    "not_applicable": [{"property": k, "reason": NOT_APPLICABLE.get(k, "its check is not built yet")}
                       for k in ids if k not in PROPS],
    "notes": "specification in spec/*.tla, binding in harness/; see DESIGN.md",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
