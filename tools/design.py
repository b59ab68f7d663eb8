#!/usr/bin/env python3
"""Refreshes the generated parts of DESIGN.md: the table of harnesses per property and the table of planted changes."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = json.load(open(root + "/MANIFEST.json"))
props = {p["id"]: p for p in map(json.loads, open(root + "/properties.jsonl"))}
H = {}
for f in sorted(glob.glob(root + "/harness/h/c*.go")):
    for m in re.finditer(r"//prop: (C\d\d)[^\n]*\n((?://[^\n]*\n)*)func (H\w+)\(", open(f).read()):
        text = " ".join(l[2:].strip() for l in m.group(2).strip().split("\n"))
        H.setdefault(m.group(1), []).append((m.group(3), text))
out = ["## Properties\n"]
for c in man["checks"]:
    p = props[c["property"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"Decided by {c['technique']}. Over: {p['quantifier']['text']}. Bounds and assumptions: {c['level_note']} "
               f"Why tests cannot settle it: {p['why_tests_cant']}.\n")
    out.append("| harness | decides |\n|---|---|")
    out += [f"| {n} | {t} |" for n, t in H[p["id"]]]
    out.append("")
out.append("## Not applicable\n")
out += [f"- {n['property']}: {n['reason']}." .replace("..", ".") for n in man["not_applicable"]]
out.append("")
catch = json.load(open(root + "/tools/caught.json")) if os.path.exists(root + "/tools/caught.json") else {}
out.append("## Planted changes and what catches them\n")
out.append("Each lies in `seeded/<id>/`, is caught by the quick check of its property, and passes the repository's tests.\n")
out.append("| change | property | shows only with | found by |\n|---|---|---|---|")
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i, m = os.path.basename(os.path.dirname(d)), json.load(open(d))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {catch.get(i, '')} |")
out.append("")
s = open(root + "/DESIGN.md").read()
a, b = s.index("## Properties\n"), s.index("## Defects found in d1-lib")
open(root + "/DESIGN.md", "w").write(s[:a] + "\n".join(out) + "\n" + s[b:])
