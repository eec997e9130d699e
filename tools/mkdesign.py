#!/usr/bin/env python3
"""Fills the property and planted-bug sections of DESIGN.md (in place)."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from design_notes import NOTES, CAUGHT  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
out = []
for p in props:
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"],
                                      NOTES.get(p["id"], "").strip()))
seeds = []
d = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    seeds.append("| %s | %s | %s | %s |" % (
        s, m["property"], m["what_it_breaks"].replace("|", "/"),
        CAUGHT.get(s, "caught by " + m["property"])))
tab = ("| id | property | what it breaks | result |\n|---|---|---|---|\n"
       + "\n".join(seeds))
f = os.path.join(ROOT, "DESIGN.md")
t = open(f).read()
t = re.sub(r"(## Properties\n).*?(\n## Where the spec)",
           lambda m: m.group(1) + "\n" + "\n".join(out) + m.group(2), t,
           flags=re.S)
t = re.sub(r"(non-zero with the patch\.\n).*", lambda m: m.group(1) + "\n"
           + tab + "\n", t, flags=re.S)
open(f, "w").write(t)
