#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import spec
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in spec.PROPS:
        P = spec.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": "symbolic execution of the compiled code's LLVM IR; z3 decides every branch and assertion",
            "level": "model_checking", "level_note": f"Holds for every value within the bounds: {P['bounds']}. Outside: {P.get('outside') or 'larger sizes and longer histories'}. "
            + ("Assumes: " + "; ".join(P["assumptions"]) + ". " if P.get("assumptions") else "") + "Trusts rustc, the llsym interpreter (its paths are re-run natively on every check), z3 and the environment models in /verif/model."})
    else:
        m["not_applicable"].append({"property": i, "reason": spec.NOT_APPLICABLE.get(i, "check under construction")})
json.dump(m, open(f"{H}/MANIFEST.json", "w"), indent=1)

# DESIGN.md: the tables of bounds and of planted bugs
import re
def between(text, name, new):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    return text[:text.index(a) + len(a)] + "\n" + new + "\n" + text[text.index(b):] if a in text else text
rows = []
for i in ids:
    if i not in spec.PROPS: continue
    P = spec.PROPS[i]
    es = []
    for r in P["runs"]:
        e = f"{r['entry']} {r['what']}" + ("" if r.get("quick", True) else " (thorough only)")
        if r.get("thorough"): e += f" (thorough: {r['thorough']['entry']})" if r["thorough"].get("entry") else ""
        es.append(e)
    rows.append(f"**{i}** Entries: {'; '.join(es)}. Bounds: {P['bounds']}. Outside: {P.get('outside') or 'larger sizes and longer histories'}."
                + (f" Assumes: {'; '.join(P['assumptions'])}." if P.get("assumptions") else ""))
d = open(f"{H}/DESIGN.md").read()
d = between(d, "bounds", "\n\n".join(rows))
if os.path.exists(f"{H}/caught.txt"):
    t = ["| bug | needs | caught by |", "|---|---|---|"]
    c = dict(l.rstrip("\n").split(" ", 1) for l in open(f"{H}/caught.txt"))
    for s in sorted(os.listdir(f"{H}/seeded")):
        meta = json.load(open(f"{H}/seeded/{s}/meta.json"))
        t.append(f"| {s} | {meta['needs']} | {c.get(s, 'not yet run')} |")
    d = between(d, "seeds", "\n".join(t))
open(f"{H}/DESIGN.md", "w").write(d)
