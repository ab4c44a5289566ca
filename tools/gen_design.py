#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_*.md, known_findings.json and seeded/*/meta.json."""
import json, os, glob, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p), encoding="utf-8").read()
out = [rd("tools/design_head.md")]
cases = {}
for f in sorted(glob.glob(V + "/rv/props/c*.py")):
    t = ast.parse(open(f, encoding="utf-8").read())
    cases[os.path.basename(f)[:3].upper()] = [n.name for n in t.body if isinstance(n, ast.FunctionDef) and any("case" in ast.dump(d) for d in n.decorator_list)]
for l in rd("tools/design_props.md").splitlines():
    out.append(l + "\n")
out.append("\nCases per property:\n\n")
for p, c in cases.items():
    out.append(f"* {p}: {', '.join(c)}\n")
k = json.loads(rd("known_findings.json"))["findings"]
out.append("\n## 5. Findings\n\nRecorded, not repaired (each printed as KNOWN-FINDING; identified by mechanism, any other violation is still reported):\n\n")
for x in k:
    if x["status"] == "known":
        out.append(f"* {x['property']} `{x['mechanism']}`: {x['what']}\n")
fx = [x for x in k if x["status"] == "fixed"]
out.append(f"\nRepaired in /repo, {len(fx)} `fix:` commits (a fixed entry suppresses nothing):\n\n")
for x in fx:
    out.append(f"* {x['property']} {x['commit']}: {x['what'].split(x['commit'],1)[-1].strip()}\n")
out.append("\n" + rd("tools/design_seeded.md") + "\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {m['property'] if m.get('caught', True) else 'missed'} |\n")
out.append("\n" + rd("tools/design_tail.md"))
open(V + "/DESIGN.md", "w", encoding="utf-8").write("".join(out))
