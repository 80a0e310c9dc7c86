#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/{head.md,methods.py,tail.md}, properties.jsonl and the harness headers."""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools", "design"))
from methods import M
def header(pid):
    d = {}
    for line in open(f"{R}/sym/h/{pid}.cpp"):
        m = re.match(r"//@ ([\w-]+): (.*)", line)
        if m: d.setdefault(m[1], m[2].strip())
    return d
out = [open(f"{R}/tools/design/head.md").read()]
for line in open(f"{R}/properties.jsonl"):
    p = json.loads(line); h = header(p["id"]); m, cost = M[p["id"]]
    out.append(f"**{p['id']} {p['title']}.** {m}\n"
               f"- *Within:* {h['bounds']}.\n- *Outside:* {h['outside']}.\n"
               + (f"- *Assumes:* {h['assumptions']}.\n" if "assumptions" in h else "")
               + f"- *Cost:* about {cost} s. *Beyond the tests because:* {p['why_tests_cant']}\n\n")
seeds = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(f"{R}/seeded")):
    j = json.load(open(f"{R}/seeded/{i}/meta.json"))
    seeds.append(f"| {i} | {j['property']}: {j['what_it_breaks']} | {j['needs']} | {j.get('caught_by', j['property'])} |")
out.append(open(f"{R}/tools/design/tail.md").read().replace("@SEEDS@", "\n".join(seeds)))
open(f"{R}/DESIGN.md", "w").write("".join(out))
