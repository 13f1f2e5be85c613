#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose of tools/design/head.md and how.txt, the
bounds from the harness files, the planted bugs from seeded/ and what the checks
made of them from tools/design/caught.txt."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = here + "/tools/design/"
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
man = json.load(open(here + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
how = {}
cur = None
for l in open(d + "how.txt"):
    m = re.match(r"(C\d\d): (.*)", l)
    if m:
        cur = m.group(1)
        how[cur] = m.group(2)
    elif l.strip():
        how[cur] += " " + l.strip()
caught = {}
if os.path.exists(d + "caught.txt"):
    for l in open(d + "caught.txt"):
        i, t = l.strip().split(" ", 1)
        caught[i] = t
seeds = {}
for i in sorted(os.listdir(here + "/seeded")) if os.path.isdir(here + "/seeded") else []:
    m = json.load(open(f"{here}/seeded/{i}/meta.json"))
    seeds.setdefault(m["property"], []).append((i, m))
out = [open(d + "head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}")
    out.append("")
    if i in na:
        out.append("Not applicable: " + na[i])
        out.append("")
        continue
    out.append(how.get(i, ""))
    out.append("")
    src = open(f"{here}/harness/{i.lower()}.go").read()
    for m in re.finditer(r"((?:^//.*\n)+)func (H_C\d\d_\w+)", src, re.M):
        doc = " ".join(l[2:].strip() for l in m.group(1).splitlines() if not l.startswith("//v:"))
        v = re.search(r"//v:(.*)", m.group(1))
        v = v.group(1) if v else ""
        how_ = "exact reals" if "mode=R" in v else ""
        if "tier=thorough" in v:
            how_ = (how_ + ", " if how_ else "") + "thorough only"
        out.append(f"- `{m.group(2)[6:]}`{' (' + how_ + ')' if how_ else ''}: {doc}")
    out.append("")
    for s, m in seeds.get(i, []):
        out.append(f"Planted `{s}`: {m['what_it_breaks'].rstrip('.')}; needs {m['needs'].rstrip('.')}. **{caught.get(s, 'not yet run')}**")
        out.append("")
open(here + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
