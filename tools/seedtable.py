#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json.
Column "others" is kept from the table, or taken from a JSON file {id: [properties]}."""
import json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "DESIGN.md")
t = open(D).read()
head, rest = t.split("| change | needs | caught by | others |\n|---|---|---|---|\n")
rows = re.findall(r"^\| (\S+) \| .* \| (P\d\d[^|]*) \| ([^|]*) \|$", rest, re.M)
old = {r[0]: r[2] for r in rows}
tail = rest[rest.rindex("|\n") + 2:]
new = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
out = ""
ids = sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    o = old.get(i, "")
    if i in new:
        x = [p.rstrip("!~") for p in new[i] if p.rstrip("!~") != m["property"]]
        o = " ".join(x[:6]) + (" …" if len(x) > 6 else "")
    out += f"| {i} | {m['needs']} | {m['property']} | {o} |\n"
head = re.sub(r"`seeded/` holds \d+ changes", f"`seeded/` holds {len(ids)} changes", head)
open(D, "w").write(head + "| change | needs | caught by | others |\n|---|---|---|---|\n" + out + tail)
