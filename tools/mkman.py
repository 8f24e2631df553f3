"""writes MANIFEST.json and DESIGN.md from tools/claims.py and tools/design.tmpl"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from claims import CLAIMS, D  # noqa: E402

props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks = []
for p in props:
    pid = p["id"]
    level, text, bounded = CLAIMS[pid]
    text = text.replace("`", "")
    if level == "proof":
        note = f"Proved for all inputs (obligations discharged on /repo's current source): {text} Trusted: the engine's semantics of Python/numpy/jax/pandas, z3; reals for floats; preconditions in DESIGN.md section 3. Additionally bounded (not counted as proved): {bounded}"
        tech = "contract-based deductive verification (symbolic execution of the real source against contracts; normal forms, z3/cvc5)"
    else:
        note = f"Contracts evaluated at run time on generated inputs (bounded): {bounded}" + (f" Deductive part: {text}" if text != "see section 5" else "")
        tech = "contract-based verification: contracts checked at run time on generated inputs (bounded stand-in for deduction)"
    checks.append(dict(property=pid, quick_cmd=f"/opt/venv/bin/python check.py {pid} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {pid} --tier thorough", technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[]), open(HERE + "/MANIFEST.json", "w"), indent=1)

t = ["## 4. The properties", ""]
for p in props:
    level, text, bounded = CLAIMS[p["id"]]
    t += [f"**{p['id']} {p['title']}** — {level}.  Contracts: {text}  Bounded: {bounded}", ""]
seeds = ["| bug | property | what breaks | caught by |", "|---|---|---|---|"]
how = json.load(open(HERE + "/tools/caught.json")) if os.path.exists(HERE + "/tools/caught.json") else {}
for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m, n = json.load(open(f)), os.path.basename(os.path.dirname(f))
    seeds.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {how.get(n, '')} |")
s = open(HERE + "/tools/design.tmpl").read().replace("@@TABLE@@", "\n".join(t)).replace("@@SEEDS@@", "\n".join(seeds))
open(HERE + "/DESIGN.md", "w").write(s)
