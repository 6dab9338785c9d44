"""Fill the generated parts of DESIGN.md (sub-checks, planted bugs); run by hand

usage: make_design.py [MATRIX]   MATRIX: output of seeded.py --all"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vf"))
import boot

boot.setup()


def fill(text, name, new):
    return re.sub(rf"(<!-- {name} -->\n).*?(<!-- /{name} -->)",
                  lambda m: m.group(1) + new + m.group(2), text, flags=re.S)


titles = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(line)
    titles[d["id"]] = d["title"]
out = []
for pid, title in sorted(titles.items()):
    prop = importlib.import_module(f"props.{pid.lower()}").PROP
    out.append(f"**{pid} {title}**\n\n")
    for s in prop.subs:
        rule = s.rule or (s.run.__doc__ or "").strip()
        out.append(f"* `{s.name}` ({s.quick} / {s.thorough} cases): {rule}\n")
    for a in prop.assumptions:
        out.append(f"* assumes: {a}\n")
    out.append("\n")
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
text = fill(text, "table", "\n" + "".join(out))
if len(sys.argv) > 1:
    rows = ["\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"]
    for line in open(sys.argv[1]):
        m = re.match(r"(caught|MISSED) (\S+) (C\d\d) by ((?:C\d\d ?)*)", line)
        if m:
            meta = json.load(open(os.path.join(HERE, "seeded", m.group(2), "meta.json")))
            rows.append(f"| {m.group(2)} | {m.group(3)} | {meta['needs']} | "
                        f"{m.group(4).strip() or 'none'} |\n")
    text = fill(text, "seeded", "".join(rows) + "\n")
open(path, "w").write(text)
