#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_props.md (one '## Cnn' section per property),
the last quick evidence (numbers), tools/design_tail.md and the planted bugs' meta files."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + "/tools/"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
text = {}
for part in re.split(r"^## ", open(T + "design_props.md").read(), flags=re.M)[1:]:
    i, body = part.split("\n", 1); text[i.strip()] = body.strip()
def n(x):
    return f"{x/1e6:.1f} M" if x >= 1e6 else f"{x/1e3:.0f} k" if x >= 10000 else str(x)
out = [open(T + "design_head.md").read().rstrip() + "\n"]
shared, own = {}, {}
ev = {}
for p in props:
    f = f"{V}/evidence/{p['id']}.json"
    ev[p["id"]] = json.load(open(f)) if os.path.exists(f) else None
def norm(w):
    w = re.sub(r"; (strict/lenient x expansion.*|and with every array declaring.*|and back.*)$", "", w)
    w = re.sub(r"^(canonical text of|with key folding|the JSON text of( the first \d+ of)?|the first \d+ of): ", "", w)
    w = re.sub(r" in 13 contexts$", "", w)
    return w
count = {}
for i, e in ev.items():
    for w in {norm(f["what"]) for f in (e or {}).get("coverage", {}).get("families", [])}:
        count[w] = count.get(w, 0) + 1
names = {}
for p in props:
    i = p["id"]; e = ev[i]
    out.append(f"\n### {i} {p['title']}\n")
    out.append(text.get(i, "(no text)") + "\n")
    if not e: continue
    c = e["coverage"]; fs = c["families"]
    st = c.get("states", 0); ex = sum(f.get("executions", 0) for f in fs)
    mine, sh = [], []
    for f in fs:
        w = norm(f["what"])
        if count[w] > 1 and not w.startswith("every schedule"):
            base = re.sub(r"^(enc|fold|values|docs|decode|encode)-", "", f["family"])
            names.setdefault(w, base); sh.append(f["family"])
        else: mine.append(f"`{f['family']}` {f['what']}")
    if i == "C12": # one family per Rust type
        mine = [f"one family per Rust type ({sum(m.startswith('`type') for m in mine)} types: every value of a bounded set x 5 container positions)"] + [m for m in mine if not m.startswith("`type")]
    out.append(f"States {n(st)}, executions {n(ex)}, {e['wall_s']:.0f} s ({e['tier']}). " +
               (f"Shared families: {', '.join(sh)}. " if sh else "") + "\n")
    if mine: out.append("Own families: " + "; ".join(mine) + ".\n")
out.append("\n### Shared families\n")
for w, b in names.items(): out.append(f"- `{b}`: {w}")
out.append("\n" + open(T + "design_tail.md").read().rstrip() + "\n")
out.append("\n## Planted bugs\n\nEach is in `seeded/<id>/` with its patch, demonstration and description; each was confirmed to build, to pass the stable tests, and to be caught by the quick run of the check of its own property (with the patch in /repo's working tree).\n")
out.append("| id | check | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    out.append(f"| {d.split('/')[-2]} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
