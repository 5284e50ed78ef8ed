"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import importlib, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
  f = os.path.join(here, "mc", "checks", p["id"].lower() + ".py")
  if not os.path.exists(f):
    na.append({"property": p["id"], "reason": "check not built (yet)"})
    continue
  src = open(f).read()
  level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
  title = re.search(r'^TITLE = "(.*)"', src, re.M).group(1)
  tech = re.search(r'^TECHNIQUE = \(?"(.*)"\)?', src, re.M)
  tech = tech.group(1) if tech else (
      "model checking of the implementation: exhaustive bounded enumeration of "
      "cases and operation histories on the real code, every step compared "
      "with a dense reference model")
  checks.append({
      "property": p["id"],
      "quick_cmd": f"./check.sh {p['id']}",
      "thorough_cmd": f"./check.sh {p['id']} --thorough",
      "evidence_file": f"evidence/{p['id']}.json",
      "technique": tech,
      "level": level,
      "level_note": f"{title}: holds on every execution within the bounds given in "
                    "DESIGN.md and in the evidence file; says nothing beyond the "
                    "bounds. Trusts numpy as arithmetic reference and the "
                    "harness's own reference model.",
  })
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c 'import numpy, jax, tensorflow, h5py, opt_einsum'",
     "checks": checks, "not_applicable": na,
     "notes": "Pure Python: the checks import /repo's working tree directly; "
              "nothing is built. No hooks in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
