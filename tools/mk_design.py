"""Writes DESIGN.md from the text below, the RULE/BOUNDS/ASSUMPTIONS of the
checks, known_findings.json and the recorded runs in tools/catches.json."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, "tools/design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools/design_tail.md")).read()
PER = {}
key = None
for line in open(os.path.join(ROOT, "tools/design_props.md")):
  if line.startswith("@@"):
    key = line[2:].strip()
    PER[key] = ""
  elif key:
    PER[key] += line


def consts(pid):
  path = f"{ROOT}/mc/checks/{pid.lower()}.py"
  if not os.path.exists(path):
    return {}
  out = {}
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
      out["BOUNDS"][n.target.slice.value] += n.value.value
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
      try:
        out[n.targets[0].id] = ast.literal_eval(n.value)
      except ValueError:
        pass
  return out


parts = [HEAD]
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
two = consts("C02")
for p in props:
  pid = p["id"]
  c = consts(pid)
  if pid == "C01":
    c.setdefault("BOUNDS", two["BOUNDS"])
  parts.append(f"### {pid} {p['title']}\n")
  if "RULE" in c:
    parts.append(f"*Enumerated.* {c['RULE']}.\n")
    b = c["BOUNDS"]
    parts.append(f"*Bounds.* quick: {b['quick']}. thorough: {b['thorough']}.\n")
    parts.append("*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
  parts.append(PER.get(pid, "").strip() + "\n")

known = json.load(open(f"{ROOT}/known_findings.json"))
parts.append("## Defects found and repaired in /repo\n")
parts.append(f"{len(known['fixed'])} `fix:` commits; each line is the property whose "
             "check failed, the commit, and what failed. None is left unrepaired as "
             "a known finding.\n" if not known.get("findings") else "")
parts.append("\n".join("- " + f.replace("fixed: property=", "") for f in known["fixed"]) + "\n")

cat = f"{ROOT}/tools/catches.json"
if os.path.exists(cat):
  rows = json.load(open(cat))
  parts.append("## Planted bugs and what catches them\n")
  parts.append("Every one compiles and passes all stable tests of the repository; the "
               "demonstration in its folder fails with it and passes without.\n")
  parts.append("| id | property | caught by | needs |\n|---|---|---|---|")
  for r in rows:
    meta = f"{ROOT}/seeded/{r['id']}/meta.json"
    if not os.path.exists(meta):
      continue
    m = json.load(open(meta))
    parts.append(f"| {r['id']} | {m['property']} | {r['caught']} | {m['needs']} |")
  parts.append("")
parts.append(TAIL)
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(parts))
