#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md between the markers: one entry per property, from properties.jsonl, the harnesses and tools/oracles.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
orac = json.load(open(R + "/tools/oracles.json"))
out = []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; s = open(f"{R}/harness/{i}.cpp").read()
    rule = re.search(r'\.rule\s*=\s*"((?:[^"\\]|\\.)*)"', s); rule = rule.group(1).replace('\\"', '"') if rule else ""
    m = re.search(r'\.assumptions\s*=\s*\{((?:[^{}"]|"(?:[^"\\]|\\.)*")*)\}', s); ass = [a.replace('\\"', '"') for a in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))] if m else []
    main = s[s.index("pbt::main"):]
    subs = re.findall(r'\{"(\w+)",\s*(?:.*?),\s*(\d+),\s*(\d+)[,}]', main)
    tech = next((x[14:].strip() for x in s.splitlines() if x.startswith("// technique: ")), "property-based testing: generated inputs against a reference oracle, with coverage feedback and shrinking")
    out.append(f"### {i} {p['title']}\n\n* **Method**: {tech}.\n* **Generated**: {rule}.\n* **Oracle**: {orac[i]}\n* **Bounds and cost**: " + ", ".join(f"`{a}` {int(b):,} cases quick / {int(c):,} thorough" for a, b, c in subs) + ("; assumes: " + "; ".join(ass) if ass else "") + f".\n* **Beyond the tests**: {p['why_tests_cant']}\n")
d = open(R + "/DESIGN.md").read()
a, b = "<!-- properties -->\n", "<!-- end -->"
d = d[:d.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + d[d.index(b):]
c, e = "<!-- seeded -->\n", "<!-- /seeded -->"
t = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{n}/meta.json")); t.append(f"| {n} | {m['property']} | {m['needs'].replace('|', chr(92) + '|')} | {m.get('caught_by', m['property'])} |")
d = d[:d.index(c) + len(c)] + "\n" + "\n".join(t) + "\n\n" + d[d.index(e):]
open(R + "/DESIGN.md", "w").write(d); print(len(out), "entries")
