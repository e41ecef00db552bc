#!/usr/bin/env python3
"""Assembles DESIGN.md from design/*.md (00-head, Cxx sections, 90-tail) and the table of planted bugs."""
import os, glob, json
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = [open(os.path.join(H, "design", "00-head.md")).read()]
titles = {}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]
out.append("## The properties, one by one\n")
for i, t in sorted(titles.items()):
    f = os.path.join(H, "design", i + ".md")
    st = "" if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) else "  *(not built yet: not claimed)*"
    out.append("### %s — %s%s\n\n%s\n" % (i, t, st, open(f).read() if os.path.exists(f) else "To be written."))
out.append(open(os.path.join(H, "design", "90-tail.md")).read())
out.append("\n## Planted bugs\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n")
try: caught = json.load(open(os.path.join(H, "design", "caught.json")))
except OSError: caught = {}
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s | %s |\n" % (i, d["property"], d["what_it_breaks"], d["needs"], caught.get(i, "(not run)")))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out[:-1]) if False else "".join(o if o.startswith("|") else o + "\n" for o in out))
